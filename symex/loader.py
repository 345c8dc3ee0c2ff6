"""Imports komm from source with an AST transformation that routes comparisons,
branches, indexing and a few builtins through symex.rt.  The transformation keeps
Python semantics: with no symbolic value in sight every helper falls back to the
plain operation."""
import ast
import builtins
import copy
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

from . import core, rt, shim

SRC = os.environ.get("KOMM_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTN = "_sx_"
CALLS = {"int", "float", "bool", "str", "isinstance", "map", "sum", "min", "max", "range", "bytes", "round",
         "dict", "set", "chr", "ord"}
SIMPLE = (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Pass)


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def rtattr(f):
    return ast.Attribute(value=name(RTN), attr=f, ctx=ast.Load())


def rtcall(f, *args):
    return ast.Call(func=rtattr(f), args=list(args), keywords=[])


def thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def const(v):
    return ast.Constant(value=v)


def has(node, *types_):
    return any(isinstance(x, types_) for x in ast.walk(node))


def uses_super(node):
    return any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(node))


def target_ok(t):
    if isinstance(t, ast.Name) or isinstance(t, ast.Subscript):
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        return all(target_ok(e) for e in t.elts)
    return False


def mergeable(stmts):
    """Only statements whose effects are name or element assignments."""
    for s in stmts:
        if isinstance(s, (ast.Pass,)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if has(s, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.FunctionDef, ast.ClassDef):
            if not isinstance(s, SIMPLE) or has(s, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr):
                return False
        if isinstance(s, ast.Assign):
            if not all(target_ok(t) for t in s.targets):
                return False
        elif isinstance(s, ast.AugAssign):
            if not target_ok(s.target):
                return False
        elif isinstance(s, ast.AnnAssign):
            if not isinstance(s.target, ast.Name) or s.value is None:
                return False
        elif isinstance(s, ast.If):
            if not mergeable(s.body) or not mergeable(s.orelse):
                return False
            continue
        elif isinstance(s, ast.For):
            if s.orelse or not target_ok(s.target) or not mergeable(s.body):
                return False
            continue
        elif isinstance(s, ast.While):
            if s.orelse or not mergeable(s.body):
                return False
            continue
        else:
            return False
        for c in ast.walk(s):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in rt.MUTATORS:
                return False
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in (
                    "next", "print", "heappush", "heappop", "heapify", "input", "setattr", "exec"):
                return False
    return True


def assigned(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                pass
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    # names bound by comprehensions are not locals
    comp = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.comprehension):
                comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    plain = set()
    for s in stmts:
        for n in ast.walk(s):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                tg = [n.target]
            for t in tg:
                plain |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return [n for n in out if n in plain]


def loads(node):
    d = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            d[n.id] = d.get(n.id, 0) + 1
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            d[n.target.id] = d.get(n.target.id, 0) + 1
    return d


class FnTransformer(ast.NodeTransformer):
    def __init__(self, mod, fn, shadow):
        self.mod = mod
        self.fn = fn
        self.init = fn.name in ("__init__", "__post_init__", "__new__", "__setstate__")
        self.shadow = shadow
        self.ntmp = 0
        self.declared = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.declared |= set(n.names)
        self.allloads = loads(fn)
        self.in_raise = 0
        self.fstr = 0

    # -- entry
    def run(self):
        f = self.fn
        f.body = self.ret_norm(f.body)
        f.body = self.block(f.body)
        return f

    def site(self, node):
        return const(f"{self.mod}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}")

    # -- 'if c: return a' followed by simple code: one exit
    def ret_norm(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and self.ends_return(s):
                r = self.single_exit(stmts[i:])
                if r is not None:
                    return stmts[:i] + r
        return stmts

    def ends_return(self, s):
        return bool(s.body) and (isinstance(s.body[-1], ast.Return) or (
            isinstance(s.body[-1], ast.If) and self.ends_return(s.body[-1])))

    def single_exit(self, stmts):
        rn = f"_sx_r{self.ntmp}"
        self.ntmp += 1

        def conv(ss):
            """ss must return on every path; returns assignments to rn, or None."""
            if not ss:
                return None
            for i, s in enumerate(ss):
                if isinstance(s, ast.Return):
                    if i + 1 != len(ss) or s.value is None:
                        return None
                    a = ast.copy_location(ast.Assign(targets=[name(rn, ast.Store())], value=s.value), s)
                    return ss[:i] + [a]
                if isinstance(s, ast.If) and has(s, ast.Return):
                    rest = ss[i + 1:]
                    if self.all_return(s.body):
                        b = conv(s.body)
                        e = conv(list(s.orelse) + rest)
                    elif s.orelse and self.all_return(s.orelse):
                        b = conv(list(s.body) + rest)
                        e = conv(s.orelse)
                    else:
                        return None
                    if b is None or e is None:
                        return None
                    n = ast.copy_location(ast.If(test=s.test, body=b, orelse=e), s)
                    n.sx_feas = True
                    return ss[:i] + [n]
                if has(s, ast.Return, ast.Raise):
                    return None
            return None
        r = conv(list(stmts))
        if r is None or not mergeable(r):
            return None
        self.allloads[rn] = 1
        return r + [ast.copy_location(ast.Return(value=name(rn)), stmts[0])]

    def all_return(self, ss):
        if not ss:
            return False
        l = ss[-1]
        if isinstance(l, ast.Return):
            return True
        return isinstance(l, ast.If) and self.all_return(l.body) and self.all_return(l.orelse)

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    # -- nested definitions
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        FnTransformer(self.mod, node, self.shadow).run()
        return node

    def visit_ClassDef(self, node):
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    # -- statements
    def outside(self, node, names):
        ins = loads(node)
        return [n for n in names if self.allloads.get(n, 0) > ins.get(n, 0)]

    def tmp(self):
        self.ntmp += 1
        return f"_sx_m{self.ntmp}"

    def names_expr(self, names, ctx):
        return ast.Tuple(elts=[name(n, ctx()) for n in names], ctx=ctx())

    def visit_If(self, node):
        ok = mergeable(node.body) and mergeable(node.orelse) and not has(node.test, ast.NamedExpr)
        names = assigned(node.body + node.orelse) if ok else []
        if ok and (set(names) & self.declared):
            ok = False
        out_names = self.outside(node, names) if ok else []
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        if not ok:
            node.test, node.body, node.orelse = test, body, orelse
            return node
        m = self.tmp()
        feas = int(getattr(node, "sx_feas", False))
        new = ast.parse(f"""
{m} = {RTN}.Region(0, 0, {feas}, {tuple(names)!r}, {tuple(out_names)!r})
if {m}.then:
    if {m}.sym:
        {m}.enter(locals(), False)
    try:
        pass
    except Exception:
        if not {m}.exc(False):
            raise
    if {m}.sym:
        {"".join(n + ", " for n in names) + "= " if names else ""}{m}.leave(locals(), False)
if {m}.els:
    if {m}.sym:
        {m}.enter(locals(), True)
    try:
        pass
    except Exception:
        if not {m}.exc(True):
            raise
    if {m}.sym:
        {"".join(n + ", " for n in names) + "= " if names else ""}{m}.leave(locals(), True)
""").body
        for st in new:
            for x in ast.walk(st):
                if isinstance(x, (ast.stmt, ast.expr, ast.ExceptHandler)):
                    ast.copy_location(x, node)
        new[0].value.args[0] = test
        new[0].value.args[1] = self.site(node)
        new[1].body[1].body = body or [ast.Pass()]
        new[2].body[1].body = orelse or [ast.Pass()]
        return new

    def visit_While(self, node):
        ok = mergeable(node.body) and not node.orelse and not has(node.test, ast.NamedExpr)
        names = assigned(node.body) if ok else []
        if ok and (set(names) & self.declared):
            ok = False
        if isinstance(node.test, ast.Constant):
            ok = False
        out_names = self.outside(node, names) if ok else []
        tn = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
        out_names = sorted(set(out_names) | (set(names) & tn)) if ok else []
        test = self.visit(node.test)
        body = self.block(node.body)
        if not ok:
            node.test, node.body = test, body
            node.orelse = self.block(node.orelse)
            return node
        m = self.tmp()
        tgt = "".join(n + ", " for n in names) or "_ "
        new = ast.parse(f"""
{m} = {RTN}.Loop(0, {tuple(names)!r}, {tuple(out_names)!r})
try:
    while {m}.test(0) and {m}.save(locals()):
        if {m}.peel is not None:
            {tgt}= {m}.enter()
        if {m}.peel is not None:
            {tgt}= {m}.join(locals())
except Exception:
    {m}.exc()
    raise
if {m}.stack:
    {"".join(n + ", " for n in names) + "= " if names else ""}{m}.finish(locals())
""").body
        for st in new:
            for x in ast.walk(st):
                if isinstance(x, (ast.stmt, ast.expr, ast.ExceptHandler)):
                    ast.copy_location(x, node)
        new[0].value.args[0] = self.site(node)
        w = new[1].body[0]
        w.test.values[0].args[0] = test
        w.body = [w.body[0]] + (body or [ast.Pass()]) + [w.body[1]] if names else body or [ast.Pass()]
        return new

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_Raise(self, node):
        self.in_raise += 1
        self.generic_visit(node)
        self.in_raise -= 1
        return node

    def visit_Return(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if self.fn.name in ("__hash__", "__len__", "__bool__", "__index__"):
            node.value = ast.copy_location(rtcall("conc", node.value), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
            if isinstance(node.target, ast.Name):
                return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)
            n = ast.copy_location(ast.Assign(targets=[node.target], value=const(None)), node)
            r = self.assign_to(n.targets[0], node.value, node)
            return r
        return node

    def mangled(self, a):
        return a.startswith("__") and not a.endswith("__")

    def simple_store(self, t):
        return isinstance(t, ast.Name) or (isinstance(t, (ast.Tuple, ast.List)) and all(
            self.simple_store(e.value if isinstance(e, ast.Starred) else e) for e in t.elts))

    def assign_to(self, t, value, loc):
        """Statements storing `value` (already transformed) into target t."""
        def cp(n):
            return ast.copy_location(n, loc)
        if self.simple_store(t):
            return [cp(ast.Assign(targets=[t], value=value))]
        if isinstance(t, ast.Subscript):
            return [cp(ast.Expr(value=rtcall("setitem", self.visit(t.value), self.index(t.slice), value)))]
        if isinstance(t, ast.Attribute):
            if self.mangled(t.attr):
                t.value = self.visit(t.value)
                return [cp(ast.Assign(targets=[t], value=value))]
            return [cp(ast.Expr(value=rtcall("setattr_", self.visit(t.value), const(t.attr), value, const(self.init))))]
        if isinstance(t, (ast.Tuple, ast.List)):
            # evaluate, unpack to temporaries, then store left to right
            tmps = []
            elts = []
            for e in t.elts:
                q = self.tmp()
                tmps.append(q)
                if isinstance(e, ast.Starred):
                    elts.append(ast.Starred(value=name(q, ast.Store()), ctx=ast.Store()))
                else:
                    elts.append(name(q, ast.Store()))
            out = [cp(ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=value))]
            for e, q in zip(t.elts, tmps):
                out += self.assign_to(e.value if isinstance(e, ast.Starred) else e, name(q), loc)
            return out
        return [cp(ast.Assign(targets=[t], value=value))]

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1:
            return self.assign_to(node.targets[0], value, node)
        q = self.tmp()
        out = [ast.copy_location(ast.Assign(targets=[name(q, ast.Store())], value=value), node)]
        for t in node.targets:
            out += self.assign_to(t, name(q), node)
        return out

    def visit_AugAssign(self, node):
        op = const(type(node.op).__name__)
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=rtcall("iop", op, name(t.id), v)), node)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Expr(value=rtcall("augitem", op, self.visit(t.value), self.index(t.slice), v)), node)
        if isinstance(t, ast.Attribute) and not self.mangled(t.attr):
            return ast.copy_location(ast.Expr(value=rtcall("augattr", op, self.visit(t.value), const(t.attr), v,
                                                           const(self.init))), node)
        node.value = v
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(value=rtcall("delitem", self.visit(t.value), self.index(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    # -- expressions
    def index(self, s):
        if isinstance(s, ast.Slice):
            z = [self.visit(x) if x is not None else const(None) for x in (s.lower, s.upper, s.step)]
            return ast.copy_location(ast.Call(func=rtattr("slice"), args=z, keywords=[]), s)
        if isinstance(s, ast.Tuple):
            return ast.copy_location(ast.Tuple(elts=[
                ast.Starred(value=self.visit(e.value), ctx=ast.Load()) if isinstance(e, ast.Starred) else self.index(e)
                for e in s.elts], ctx=ast.Load()), s)
        return self.visit(s)

    def visit_Subscript(self, node):
        if not isinstance(node.ctx, ast.Load):
            node.value = self.visit(node.value)
            return node
        return ast.copy_location(rtcall("getitem", self.visit(node.value), self.index(node.slice)), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        fn = {ast.Eq: "eq", ast.NotEq: "ne", ast.In: "contains", ast.NotIn: "notcontains"}
        if len(node.ops) == 1:
            f = fn.get(type(node.ops[0]))
            if f is None:
                return node
            return ast.copy_location(rtcall(f, node.left, node.comparators[0]), node)
        if has(node, ast.NamedExpr) or uses_super(node):
            return node
        ops = []
        for o, c in zip(node.ops, node.comparators):
            f = rtattr({ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is_", ast.IsNot: "is_not"}.get(
                type(o)) or fn[type(o)])
            ops.append(ast.Tuple(elts=[f, thunk(c)], ctx=ast.Load()))
        return ast.copy_location(rtcall("chain", self.site(node), node.left, ast.List(elts=ops, ctx=ast.Load())), node)

    def visit_BoolOp(self, node):
        node = self.generic_visit(node)
        if has(node, ast.NamedExpr) or uses_super(node):
            return node
        f = "and2" if isinstance(node.op, ast.And) else "or2"
        r = node.values[-1]
        for i, v in enumerate(reversed(node.values[:-1])):
            s = self.site(node)
            s.value += f":{len(node.values) - i}"
            r = rtcall(f, s, v, thunk(r))
        return ast.copy_location(r, node)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(rtcall("not1", node.operand), node)
        return node

    def visit_IfExp(self, node):
        node = self.generic_visit(node)
        if has(node, ast.NamedExpr, ast.Yield) or uses_super(node):
            return node
        return ast.copy_location(rtcall("ifexp", self.site(node), node.test, thunk(node.body), thunk(node.orelse)), node)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id not in self.shadow:
            if f.id in CALLS:
                node.func = ast.copy_location(rtattr("f_" + f.id), f)
            elif f.id in ("any", "all") and len(node.args) == 1:
                node.func = ast.copy_location(rtattr("f_" + f.id), f)
                node.args = [self.site(node)] + node.args
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "int" and f.attr == "from_bytes":
                node.func = ast.copy_location(rtattr("f_from_bytes"), f)
            elif f.attr == "join" and isinstance(f.value, ast.Constant):
                node.func = ast.copy_location(rtattr("f_join"), f)
                node.args = [f.value] + node.args
            elif f.attr in rt.MUTATORS and not uses_super(f):
                node.func = ast.copy_location(rtcall("mut", f.value, const(f.attr)), f)
            elif f.attr in rt.ARRMETH and not uses_super(f):
                node.func = ast.copy_location(rtcall("meth", f.value, const(f.attr)), f)
        return node

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(rtcall("f_dictcomp", gen), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(rtcall("f_set", gen), node)

    def visit_JoinedStr(self, node):
        if self.fstr:
            return node
        self.fstr += 1
        node = self.generic_visit(node)
        self.fstr -= 1
        if self.in_raise and not uses_super(node):
            return ast.copy_location(rtcall("msg", thunk(node)), node)
        return node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node


def relocated(node):
    """A copy of the node at a place of its own."""
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if hasattr(n, "col_offset"):
            n.col_offset += 1000
            if getattr(n, "end_col_offset", None) is not None:
                n.end_col_offset += 1000
    return node


def first_walrus(e):
    """The assignment expression evaluated before anything else in e with an effect, with its parent's slot."""
    parent = None
    while True:
        if isinstance(e, ast.NamedExpr):
            return (e, parent) if not has(e.value, ast.NamedExpr) else None
        if isinstance(e, ast.Compare):
            if has(e.left, ast.NamedExpr):
                parent, e = (e, "left", None), e.left
                continue
            c = e.comparators[0]
            if isinstance(e.left, ast.Constant) or isinstance(e.left, ast.Name) and has(c, ast.NamedExpr) and all(
                    x.target.id != e.left.id for x in ast.walk(c) if isinstance(x, ast.NamedExpr)):
                parent, e = (e, "comparators", 0), c
                continue
            return None
        if isinstance(e, ast.BoolOp):
            parent, e = (e, "values", 0), e.values[0]
        elif isinstance(e, ast.BinOp) and has(e.left, ast.NamedExpr):
            parent, e = (e, "left", None), e.left
        elif isinstance(e, ast.UnaryOp):
            parent, e = (e, "operand", None), e.operand
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.args and has(e.args[0], ast.NamedExpr):
            parent, e = (e, "args", 0), e.args[0]
        else:
            return None


class Normalise(ast.NodeTransformer):
    """Brings statements into the forms that can be merged; the meaning stays the same.

    if (n := e) > 0: ..            n = e; if n > 0: ..
    while (n := e) > 0: B          n = e; while n > 0: B; n = e
    while True: A; if c: break; B  A; while not c: B; A
    for ..: A; if c: B; continue; C    for ..: A; if c: B else: C
    """

    def lift(self, test):
        r = first_walrus(test)
        if r is None:
            return None
        w, slot = r
        a = ast.copy_location(ast.Assign(targets=[ast.copy_location(name(w.target.id, ast.Store()), w)], value=w.value), w)
        n = ast.copy_location(name(w.target.id), w)
        if slot is None:
            test = n
        elif slot[2] is None:
            setattr(slot[0], slot[1], n)
        else:
            getattr(slot[0], slot[1])[slot[2]] = n
        return a, test

    def visit_If(self, node):
        self.generic_visit(node)
        if has(node.test, ast.NamedExpr):
            r = self.lift(node.test)
            if r is not None:
                node.test = r[1]
                return [r[0], node]
        return node

    def continues(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Continue) and body[i + 1:]:
                rest = self.continues(body[i + 1:])
                if not has(s, ast.Break) and mergeable(s.body[:-1]) and mergeable(rest):
                    n = ast.copy_location(ast.If(test=s.test, body=s.body[:-1] or [ast.copy_location(ast.Pass(), s)], orelse=rest), s)
                    return body[:i] + [n]
        return body

    def visit_For(self, node):
        self.generic_visit(node)
        node.body = self.continues(node.body)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body = self.continues(node.body)
        if has(node.test, ast.NamedExpr):
            if not mergeable(node.body) or node.orelse:
                return node
            r = self.lift(node.test)
            if r is not None:
                node.test = r[1]
                node.body = node.body + [relocated(r[0])]
                return [r[0], node]
            return node
        if isinstance(node.test, ast.Constant) and node.test.value and not node.orelse:
            for i, s in enumerate(node.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Break):
                    a, b = node.body[:i], node.body[i + 1:]
                    if mergeable(a) and mergeable(b) and not has(s.test, ast.NamedExpr):
                        node.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.test), s.test)
                        node.body = b + [relocated(x) for x in a] or [ast.copy_location(ast.Pass(), s)]
                        return a + [node]
                    break
        return node


class ModTransformer(ast.NodeTransformer):
    def __init__(self, mod, shadow):
        self.mod = mod
        self.shadow = shadow

    def visit_FunctionDef(self, node):
        FnTransformer(self.mod, node, self.shadow).run()
        return node


def transform(src, path, mod):
    tree = ast.parse(src, path)
    shadow = {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            shadow.add(n.id)
        elif isinstance(n, ast.arg):
            shadow.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                shadow.add(a.asname or a.name)
    # drop docstrings
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body[0].value.value = ""
    tree = Normalise().visit(tree)
    tree = ModTransformer(mod, shadow).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname == "tqdm" or fullname == "typeguard":
            return importlib.machinery.ModuleSpec(fullname, self)
        base = SRC if fullname.split(".")[0] == "komm" else VERIF if fullname.split(".")[0] == "props" else None
        if base is None:
            return None
        p = os.path.join(base, *fullname.split("."))
        if os.path.isdir(p):
            return importlib.util.spec_from_file_location(fullname, os.path.join(p, "__init__.py"), loader=self,
                                                          submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        nm = module.__name__
        if nm == "tqdm":
            module.tqdm = shim.tqdm
            module.trange = lambda *a, **k: shim.tqdm(range(*a))
            return
        if nm == "typeguard":
            module.typechecked = lambda f=None, **k: f if f is not None else (lambda g: g)
            return
        path = module.__spec__.origin
        with open(path) as f:
            src = f.read()
        short = nm.removeprefix("komm.")
        code = compile(transform(src, path, short), path, "exec")
        g = module.__dict__
        g[RTN] = rt
        with shim.patched_imports():
            exec(code, g)
        shim.patch_globals(module)
        LOADED[path] = nm


LOADED = {}


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
        import importlib.metadata as md
        real = md.version
        md.version = lambda n: "0" if n == "komm" else real(n)
    import komm
    return komm
