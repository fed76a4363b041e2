"""Mechanical instrumentation of fastkml's source at import time.

The text that is executed is /repo's current source; the rewriting only routes
the operations that CPython would perform natively on proxies through hooks
(identity, membership, formatting, calls, iteration, displays).  With concrete
operands every hook performs the original operation, which
tools/instrumented_tests.py confirms by running the repository's own tests on
the instrumented modules.
"""
from __future__ import annotations

import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import sys

HOOK = "_vf_"


def _call(name, *args):
    return ast.Call(
        func=ast.Attribute(value=ast.Name(id=HOOK, ctx=ast.Load()), attr=name, ctx=ast.Load()),
        args=list(args), keywords=[])


def _const(v):
    return ast.Constant(value=v)


class LoopInfo(ast.NodeVisitor):
    """Names stored / loaded in a loop body, with positions."""

    def __init__(self):
        self.stores, self.loads, self.aug = {}, {}, set()
        self.exc = set()
        self.attr_store = False

    def visit_Name(self, n):
        pos = (n.lineno, n.col_offset)
        d = self.stores if isinstance(n.ctx, (ast.Store, ast.Del)) else self.loads
        d.setdefault(n.id, []).append(pos)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.add(n.target.id)
        else:
            self.attr_store = True
        self.generic_visit(n)

    def visit_Assign(self, n):
        # the value is evaluated before the targets are bound
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_Attribute(self, n):
        # an attribute of a named object: hooks.store looks at the object itself
        if isinstance(n.ctx, (ast.Store, ast.Del)) and not isinstance(n.value, ast.Name):
            self.attr_store = True
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.attr_store = True
        self.generic_visit(n)

    def visit_comprehension(self, n):
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if n.name:
            # bound by the handler and unbound at its end
            before = list(self.loads.get(n.name, ()))
            self.generic_visit(n)
            self.loads[n.name] = before
            self.exc.add(n.name)
            return
        self.generic_visit(n)

    def visit_Lambda(self, n):
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.stores.setdefault(n.name, []).append((n.lineno, n.col_offset))
        self.generic_visit(n)


def carried_names(loop, func):
    """Why a loop may carry state between iterations, or None."""
    info = LoopInfo()
    for st in loop.body:
        info.visit(st)
    if leaves_early(loop.body):
        return "loop left early"
    if info.attr_store:
        return "attribute or item assignment"
    for name in info.exc:
        if info.loads.get(name):
            return name
    targets = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    end = max((n.end_lineno, n.end_col_offset) for n in ast.walk(loop) if hasattr(n, "end_lineno") and n.end_lineno)
    comp = set()
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp |= {m.id for m in ast.walk(g.target) if isinstance(m, ast.Name)}
    for name in list(info.stores):
        if name in comp and name not in info.aug:
            continue
        if name in info.aug:
            return name
        if name not in targets and reads_first(loop.body, name):
            return name
    if func is not None:
        stored = (set(info.stores) | targets) - comp
        for n in ast.walk(func):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored:
                if (n.lineno, n.col_offset) > end:
                    # read after the loop, unless the name is bound again first
                    if not _rebound_between(func, n.id, end, (n.lineno, n.col_offset)):
                        return n.id + " (read after the loop)"
    return None


def leaves_early(body):
    """break or return that leaves this loop."""
    def walk(sts, inner):
        for st in sts:
            if isinstance(st, ast.Return) or (isinstance(st, ast.Break) and not inner):
                return True
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            loop = inner or isinstance(st, (ast.For, ast.While))
            for f in ("body", "orelse", "finalbody"):
                if walk(getattr(st, f, []), loop if f == "body" else inner):
                    return True
            for h in getattr(st, "handlers", []):
                if walk(h.body, inner):
                    return True
        return False
    return walk(body, False)


def search_loop(n):
    """`for T in I: [y = E; ...] if C: ...; return/break` as the statements
    "bind T (and y) to the first match, if there is one, and go on from there",
    which is the same as long as C and E have no statements of their own."""
    body = list(n.body)
    if not isinstance(n.target, (ast.Name, ast.Tuple)):
        return None
    binds = []
    while body and isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and isinstance(body[0].targets[0], ast.Name):
        binds.append(body.pop(0))
    tests = []
    while len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
        tests.append(ast.UnaryOp(op=ast.Not(), operand=body[0].test))
        body.pop(0)
    if len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        tests.append(body[0].test)
        body = body[0].body
    if not body or not isinstance(body[-1], (ast.Return, ast.Break)) or leaves_early(body[:-1]):
        return None
    if any(isinstance(m, (ast.Continue, ast.Break)) for st in body[:-1] for m in ast.walk(st)):
        return None
    inner = [n.iter, *[b.value for b in binds], *tests]
    if any(isinstance(m, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or (isinstance(m, ast.Name) and m.id == "super")
           for x in inner for m in ast.walk(x)):
        return None
    names = [b.targets[0].id for b in binds]
    if len(set(names)) != len(names):
        return None

    def load(t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Tuple) and all(isinstance(e, (ast.Name, ast.Tuple)) for e in t.elts):
            elts = [load(e) for e in t.elts]
            return None if None in elts else ast.Tuple(elts=elts, ctx=ast.Load())
        return None
    bound = load(n.target)
    if bound is None:
        return None
    var = f"_vf_s{n.lineno}_{n.col_offset}"
    if binds or tests:
        value = ast.Tuple(elts=[bound, *[ast.Name(id=x, ctx=ast.Load()) for x in names]], ctx=ast.Load())
        gens = [ast.comprehension(target=n.target, iter=n.iter, ifs=[], is_async=0)]
        for b in binds:
            gens.append(ast.comprehension(target=b.targets[0], iter=ast.Tuple(elts=[b.value], ctx=ast.Load()), ifs=[], is_async=0))
        gens[-1].ifs = tests
        first = ast.Call(func=ast.Name(id="next", ctx=ast.Load()), args=[ast.GeneratorExp(elt=value, generators=gens), ast.Constant(value=None)], keywords=[])
        goal = ast.Tuple(elts=[copy.deepcopy(n.target), *[ast.Name(id=x, ctx=ast.Store()) for x in names]], ctx=ast.Store())
    else:
        first = _call("first", n.iter)
        goal = ast.Tuple(elts=[n.target], ctx=ast.Store())
    then = [ast.Assign(targets=[goal], value=ast.Name(id=var, ctx=ast.Load()))]
    then += body[:-1] if isinstance(body[-1], ast.Break) else body
    return [
        ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=first),
        ast.If(test=ast.Compare(left=ast.Name(id=var, ctx=ast.Load()), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)]),
               body=then, orelse=n.orelse),
    ]


class _Exposed(Exception):
    pass


def reads_first(body, name):
    """Whether one round of a loop may read ``name`` before it has bound it."""
    try:
        _flow(body, name, False)
    except _Exposed:
        return True
    return False


def _binds(target, name):
    return any(isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Store) for m in ast.walk(target))


def _flow(sts, name, done):
    """Whether ``name`` is bound wherever the statements end normally; raises
    _Exposed for a read that may come first."""
    for st in sts:
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is not None:
                done = all(_value(st.value, name, done))
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                done = all(_value(t, name, done)) or (_binds(t, name) and st.value is not None)
        elif isinstance(st, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(st):
                done = all(_value(x, name, done))
            return True
        elif isinstance(st, (ast.Continue, ast.Break)):
            return True
        elif isinstance(st, ast.If):
            yes, no = _value(st.test, name, done)
            yes, no = _flow(st.body, name, yes), _flow(st.orelse, name, no)
            done = yes and no
        elif isinstance(st, ast.For):
            done = all(_value(st.iter, name, done))
            _flow(st.body, name, done or _binds(st.target, name))
            _flow(st.orelse, name, done)
        elif isinstance(st, ast.While):
            yes, no = _value(st.test, name, done)
            _flow(st.body, name, yes)
            _flow(st.orelse, name, no)
        elif isinstance(st, ast.With):
            for x in st.items:
                done = all(_value(x.context_expr, name, done))
                if x.optional_vars is not None:
                    done = all(_value(x.optional_vars, name, done)) or _binds(x.optional_vars, name)
            # a context manager may suppress an exception
            _flow(st.body, name, done)
        elif isinstance(st, ast.Try):
            ends = [_flow(st.orelse, name, _flow(st.body, name, done))]
            for h in st.handlers:
                if h.type is not None:
                    _value(h.type, name, done)
                # the name of the exception is unbound at the end of its handler
                end = _flow(h.body, name, done or h.name == name)
                ends.append(end if h.name != name else False)
            done = _flow(st.finalbody, name, done) or all(ends)
        elif isinstance(st, (ast.Expr, ast.Assert)):
            for x in ast.iter_child_nodes(st):
                done = all(_value(x, name, done))
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            _reads(st, name, done)
            done = done or st.name == name
        else:
            _reads(st, name, done)
    return done


def _reads(node, name, done):
    if not done and any(isinstance(m, ast.Name) and m.id == name and not isinstance(m.ctx, ast.Store) for m in ast.walk(node)):
        raise _Exposed


def _value(e, name, done):
    """Whether ``name`` is bound after the expression was true, and after it was false."""
    if isinstance(e, ast.Name):
        if e.id == name and isinstance(e.ctx, ast.Load) and not done:
            raise _Exposed
        return done, done
    if isinstance(e, ast.NamedExpr):
        done = all(_value(e.value, name, done)) or e.target.id == name
        return done, done
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yes, no = _value(e.operand, name, done)
        return no, yes
    if isinstance(e, ast.BoolOp):
        conj = isinstance(e.op, ast.And)
        go, stops = done, []
        for x in e.values:
            yes, no = _value(x, name, go)
            go, stop = (yes, no) if conj else (no, yes)
            stops.append(stop)
        return (go, all(stops)) if conj else (all(stops), go)
    if isinstance(e, ast.IfExp):
        yes, no = _value(e.test, name, done)
        r = all([*_value(e.body, name, yes), *_value(e.orelse, name, no)])
        return r, r
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
        if not (isinstance(e, ast.Lambda) or not any(_binds(g.target, name) for g in e.generators)):
            done2 = all(_value(e.generators[0].iter, name, done))
            return done2, done2
        _reads(e, name, done)
        return done, done
    for x in ast.iter_child_nodes(e):
        if isinstance(x, (ast.expr, ast.keyword, ast.slice if hasattr(ast, "slice") else ast.expr)):
            done = all(_value(x, name, done))
    return done, done


def _rebound_between(func, name, a, b):
    for n in ast.walk(func):
        if isinstance(n, (ast.For, ast.comprehension)):
            for m in ast.walk(n.target):
                if isinstance(m, ast.Name) and m.id == name and a < (m.lineno, m.col_offset):
                    return True
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            if a < (n.lineno, n.col_offset) <= b:
                return True
        if isinstance(n, ast.ExceptHandler) and n.name == name and a < (n.lineno, n.col_offset) < b:
            return True
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []
        self.trydepth = 0

    def loc(self, n):
        f = self.func[-1].name if self.func else "<module>"
        return f"{self.mod}:{f}:{n.lineno}:{n.col_offset}"

    # -- definitions
    def visit_FunctionDef(self, n):
        n.decorator_list = n.decorator_list
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        self.func.append(n)
        carried = {}
        for m in ast.walk(n):
            if isinstance(m, ast.For):
                carried[id(m)] = carried_names(m, n)
        old = getattr(self, "carried", {})
        self.carried = {**old, **carried}
        body = []
        for st in n.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.func.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        body = []
        for st in n.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        pre = self._store_guard([n.target])
        n.target = self.visit(n.target)
        return pre + [n]

    # -- statements
    def _store_guard(self, targets):
        if not self.func:
            return []
        for t in targets:
            for m in ast.walk(t):
                if isinstance(m, (ast.Attribute, ast.Subscript)) and isinstance(m.ctx, (ast.Store, ast.Del)):
                    f = self.func[-1]
                    first = f.args.args[0].arg if f.args.args else None
                    if (isinstance(m, ast.Attribute) and f.name == "__init__" and isinstance(m.value, ast.Name)
                            and m.value.id == first):
                        continue
                    obj = ast.Name(id=m.value.id, ctx=ast.Load()) if (
                        isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and len(targets) == 1 and t is m) else _const(None)
                    return [ast.copy_location(ast.Expr(value=_call("store", _const(self.loc(m)), obj)), t)]
        return []

    def visit_Assign(self, n):
        pre = self._store_guard(n.targets)
        n.value = self.visit(n.value)
        n.targets = [self.visit(t) for t in n.targets]
        return pre + [n]

    def visit_AugAssign(self, n):
        pre = self._store_guard([n.target])
        n.value = self.visit(n.value)
        return pre + [n]

    def visit_Delete(self, n):
        return self._store_guard(n.targets) + [n]

    def visit_Return(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
            if self.func and self.func[-1].name in ("__bool__", "__contains__"):
                n.value = _call("ret_bool", n.value)
        return n

    def visit_For(self, n):
        d = search_loop(n)
        if d is not None:
            return self._block([ast.fix_missing_locations(ast.copy_location(st, n)) for st in d])
        why = getattr(self, "carried", {}).get(id(n))
        loc = self.loc(n)
        n.iter = _call("iter", self.visit(n.iter), _const(loc), _const(why))
        n.body = self._block(n.body)
        n.orelse = self._block(n.orelse)
        return n

    def _block(self, sts):
        out = []
        for st in sts:
            r = self.visit(st)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Try(self, n):
        self.trydepth += 1
        var = f"_vf_d{self.trydepth}_{n.lineno}"
        pre = ast.copy_location(ast.Assign(
            targets=[ast.Name(id=var, ctx=ast.Store())], value=_call("depth")), n)
        n.body = self._block(n.body)
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = [ast.copy_location(ast.Expr(value=_call("undepth", ast.Name(id=var, ctx=ast.Load()))), h)] + self._block(h.body)
        n.orelse = self._block(n.orelse)
        n.finalbody = self._block(n.finalbody)
        return [pre, n]

    def visit_Global(self, n):
        return [n, ast.copy_location(ast.Expr(value=_call("store", _const(self.loc(n)))), n)]

    visit_Nonlocal = visit_Global

    # -- expressions
    def visit_Compare(self, n):
        self.generic_visit(n)
        if not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            return n
        if len(n.ops) > 1:
            return n  # chained identity tests are not hooked
        op, a, b = n.ops[0], n.left, n.comparators[0]
        name = {ast.Is: "is_", ast.IsNot: "isnot", ast.In: "in_", ast.NotIn: "notin"}[type(op)]
        return ast.copy_location(_call(name, a, b), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or isinstance(n.slice, (ast.Slice, ast.Constant, ast.UnaryOp, ast.Tuple)):
            return n
        return ast.copy_location(_call("item", n.value, n.slice), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else _const("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), _const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call("fstr", *parts), n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return n
        if isinstance(n.func, ast.Name) and n.func.id == "vars" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(_call("dict_of", self.visit(n.args[0]), _const(True)), n)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars"):
            self.generic_visit(n)
            return n
        func = self.visit(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(ast.Starred(value=_call("spread", self.visit(a.value)), ctx=ast.Load()))
            else:
                args.append(self.visit(a))
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
        c = _call("call", _const(self.loc(n)), func, *args)
        c.keywords = kws
        return ast.copy_location(c, n)

    def _display(self, n, hook):
        if not isinstance(n.ctx, ast.Load):
            self.generic_visit(n)
            return n
        if any(isinstance(e, ast.Starred) for e in n.elts):
            items = [ast.Tuple(elts=[_const(isinstance(e, ast.Starred)),
                                     self.visit(e.value if isinstance(e, ast.Starred) else e)], ctx=ast.Load())
                     for e in n.elts]
            return ast.copy_location(_call(hook + "_star", _const(self.loc(n)), *items), n)
        self.generic_visit(n)
        if hook == "mklist":
            return ast.copy_location(_call("mklist", n, _const(self.loc(n))), n)
        return n

    def visit_List(self, n):
        return self._display(n, "mklist")

    def visit_Tuple(self, n):
        return self._display(n, "mktuple")

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call("mkdict", n), n)

    def _gens(self, n, why=None):
        for g in n.generators:
            g.iter = _call("iter", self.visit(g.iter), _const(self.loc(g.iter)), _const(why))
            g.ifs = [self.visit(i) for i in g.ifs]

    def visit_ListComp(self, n):
        self._gens(n)
        n.elt = self.visit(n.elt)
        ge = ast.copy_location(ast.GeneratorExp(elt=n.elt, generators=n.generators), n)
        return ast.copy_location(_call("mklist_it", ge, _const(self.loc(n))), n)

    def visit_GeneratorExp(self, n):
        self._gens(n)
        n.elt = self.visit(n.elt)
        return n

    def visit_SetComp(self, n):
        self._gens(n)
        n.elt = self.visit(n.elt)
        ge = ast.copy_location(ast.GeneratorExp(elt=n.elt, generators=n.generators), n)
        return ast.copy_location(_call("mkset_it", ge, _const(self.loc(n))), n)

    def visit_DictComp(self, n):
        self._gens(n, "dict comprehension")
        n.key = self.visit(n.key)
        n.value = self.visit(n.value)
        return ast.copy_location(_call("mkdict", n), n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "__dict__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call("dict_of", n.value, _const(False)), n)
        return n

    def visit_YieldFrom(self, n):
        n.value = _call("iter", self.visit(n.value), _const(self.loc(n)), _const(None))
        return n


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        return instrument(src, path, fullname)

    def exec_module(self, module):
        from . import stubs
        module.__dict__[HOOK] = stubs.hooks
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "fastkml" and not fullname.startswith("fastkml."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, [self.root] if fullname == "fastkml" else path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(root="/repo"):
    sys.dont_write_bytecode = True
    assert "fastkml" not in sys.modules
    sys.meta_path.insert(0, Finder(root))
