"""Hooks called by the instrumented code, and the models of the callees that
are outside fastkml (Python built-ins and libraries)."""
from __future__ import annotations

import builtins
import enum
import itertools
import logging
import operator
import re
import types
import typing

import z3

from . import core, seq
from .core import (BOOL, INT, REAL, STR, Ctx, Lazy, Sym, SymBool, SymInt,
                   SymReal, SymStr, Term, Unsupported, conj, ctx, deep_eq, disj,
                   force, kind_of, neg, num_expr, str_expr, sym_eq, uf,
                   wrap_bool, wrap_num, wrap_str)
from .seq import (DerivedSeq, JoinStr, SDict, SList, Star, STuple, SymSeq,
                  collect, entries_of, viter)

LIB = "fastkml"


class Spread:
    """*args with an unknown number of values."""

    def __init__(self, l):
        self.l = l


class ReprOf:
    """repr(value) inside a formatted text."""

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"repr<{type(self.value).__name__}>"


class Opaque:
    """Marker base for harness objects the engine must treat as symbolic."""

    _vf_symbolic = True


def has_sym(v, depth=4):
    if isinstance(v, (Sym, Lazy, Term, SymSeq, STuple, Spread)):
        return True
    if getattr(type(v), "_vf_symbolic", False):
        return True
    if isinstance(v, SList):
        return any(isinstance(x, Star) or has_sym(x, depth - 1) for x in list.__iter__(v))
    if depth <= 0:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x, depth - 1) for x in v.values())
    if isinstance(v, BaseException):
        return has_sym(v.args, depth - 1)
    mod = type(v).__module__
    if (mod.startswith(LIB) or mod.startswith("vfstub")) and hasattr(v, "__dict__"):
        return any(has_sym(x, depth - 1) for x in vars(v).values())
    return False


# ---------------------------------------------------------------------------
# conversions


def int_str(e):
    c = ctx()
    f = uf("int_str", INT, STR)
    s = f(e)
    key = ("int_str", e.sexpr())
    if key not in c.memo:
        c.memo[key] = True
        c.app("int_ok", s, BOOL), c.app("int_of", s, INT)
        c.add(uf("int_ok", STR, BOOL)(s))
        c.add(uf("int_of", STR, INT)(s) == e)
        c.app("float_ok", s, BOOL), c.app("float_of", s, REAL)
        c.add(uf("float_ok", STR, BOOL)(s))
        c.add(uf("float_of", STR, REAL)(s) == z3.ToReal(e))
        c.add(s != z3.StringVal(""))
        c.add(uf("strip", STR, STR)(s) == s)
        c.assumptions.add("int(str(n)) == n for every integer n (CPython)")
    r = SymStr(s)
    r.clean = "token"
    return r


def float_str(e):
    c = ctx()
    s = uf("float_str", REAL, STR)(e)
    key = ("float_str", e.sexpr())
    if key not in c.memo:
        c.memo[key] = True
        c.app("float_ok", s, BOOL), c.app("float_of", s, REAL)
        c.add(uf("float_ok", STR, BOOL)(s))
        c.add(uf("float_of", STR, REAL)(s) == e)
        c.add(s != z3.StringVal(""))
        c.add(uf("strip", STR, STR)(s) == s)
        c.assumptions.add("float(str(x)) == x for every finite float x, and str(x) is its shortest form (CPython)")
    r = SymStr(s)
    r.clean = "token"
    return r


def fixed(v, spec):
    """format(v, spec) for a symbolic number."""
    c = ctx()
    e = v.e
    isint = e.sort() == INT
    f = uf("fmt_int" if isint else "fmt_real", e.sort(), STR, STR)
    s = f(e, str_expr(spec))
    key = ("fmt", s.sexpr())
    if key not in c.memo:
        c.memo[key] = True
        c.add(s != z3.StringVal(""))
        if isinstance(spec, SymStr) or (isinstance(spec, str) and spec[-1:] in ("f", "d") and " " not in spec and "," not in spec):
            c.app("float_ok", s, BOOL), c.app("float_of", s, REAL)
            c.add(uf("float_ok", STR, BOOL)(s))
            c.add(uf("strip", STR, STR)(s) == s)
    r = SymStr(s)
    r.clean = "token"
    return r


def to_str(v):
    v = force(v)
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymBool):
        return "True" if bool(v) else "False"
    if isinstance(v, SymInt):
        if "dates" in ctx().memo:
            from . import dates
            r = dates.padded(v, "d")
            if r is not None:
                return r
        return int_str(v.e)
    if isinstance(v, SymReal):
        return float_str(v.e)
    if isinstance(v, Term):
        return term_str(v)
    if isinstance(v, (SymSeq, STuple)):
        return SymStr(ctx().fresh("str", STR))
    if isinstance(v, BaseException) and has_sym(v.args):
        return v.args[0] if len(v.args) == 1 and isinstance(v.args[0], SymStr) else SymStr(ctx().fresh("message", STR))
    m = type(v).__str__
    if isinstance(m, types.FunctionType):
        return m(v)
    if type(v).__repr__ is not object.__repr__ and has_sym(v):
        return to_repr(v)
    return str(v)


def term_str(t):
    """str() of an external value: equal for equal values."""
    if "str" in t.attrs:
        x = t.attrs["str"]
        return x(t) if callable(x) else x
    return memo_str("str", t)


def memo_str(kind, t):
    c = ctx()
    for k, s, r in c.memo.setdefault("strs", []):
        if k == kind and deep_eq(s, t) is True:
            return r
    r = SymStr(c.fresh(kind, STR))
    c.memo["strs"].append((kind, t, r))
    return r


class RStr(SymStr):
    """A formatted text with parts that are representations of values."""

    __slots__ = ()


def to_repr(v):
    if not has_sym(v):
        return repr(v)
    r = RStr(ctx().fresh("repr", STR))
    r.parts = [ReprOf(v)]
    return r


def fmt(v, conv, spec):
    if conv == ord("r"):
        return to_repr(v)
    v = force(v)
    if conv == ord("s"):
        v = to_str(v)
    if not has_sym(v) and not has_sym(spec):
        m = type(v).__str__
        if spec == "" and isinstance(m, types.FunctionType) and m.__module__.startswith(LIB):
            return m(v)
        return format(v, spec)
    if isinstance(spec, str) and spec == "":
        return to_str(v)
    if isinstance(v, SymInt) and "dates" in ctx().memo and isinstance(spec, str):
        from . import dates
        r = dates.padded(v, spec)
        if r is not None:
            return r
    if isinstance(v, (SymInt, SymReal)):
        return fixed(v, spec)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        # concrete number, symbolic precision
        return fixed(SymReal(num_expr(float(v))), spec)
    raise Unsupported("formatting")


def concat(parts):
    """Concatenation of str / SymStr pieces."""
    if any(hasattr(p, "skeleton") for p in parts) and all(isinstance(p, str) or hasattr(p, "skeleton") for p in parts):
        from . import dates
        return dates.make(parts)
    flat = []
    for p in parts:
        if isinstance(p, SymStr) and p.parts and isinstance(p, RStr):
            flat.extend(p.parts)
        elif isinstance(p, str):
            if flat and isinstance(flat[-1], str):
                flat[-1] += p
            elif p:
                flat.append(p)
        else:
            flat.append(p)
    if not flat:
        return ""
    if len(flat) == 1:
        if isinstance(flat[0], str):
            return flat[0]
        if isinstance(flat[0], SymStr):
            return flat[0]
    if any(isinstance(p, ReprOf) for p in flat):
        r = RStr(ctx().fresh("text", STR))
        r.parts = flat
        return r
    r = SymStr(z3.Concat(*[str_expr(p) for p in flat]))
    r.parts = flat
    return r


# ---------------------------------------------------------------------------
# membership / identity


def contains(cont, x):
    cont, x = force(cont), force(x)
    if isinstance(cont, SymStr) or (isinstance(cont, str) and isinstance(x, SymStr)):
        return wrap_bool(z3.Contains(str_expr(cont), str_expr(x)))
    if isinstance(cont, (SymSeq, SList, STuple)):
        raw = entries_of(cont)
        if any(isinstance(e, Star) for e in raw):
            return seq.quantify("in", cont, lambda y: sym_eq(y, x), "in")
        return disj(*[sym_eq(y, x) for y in raw])
    if isinstance(cont, (Term, Sym)):
        raise Unsupported("membership in an external value")
    if isinstance(x, (Sym, Term)) or (isinstance(cont, (list, tuple)) and has_sym(cont)):
        if isinstance(cont, (set, frozenset, tuple, list)):
            return disj(*[sym_eq(y, x) for y in (sorted(cont, key=repr) if isinstance(cont, (set, frozenset)) else cont)])
        if isinstance(cont, dict) or isinstance(cont, type({}.keys())):
            return disj(*[sym_eq(y, x) for y in cont])
        if isinstance(cont, type({}.values())):
            return disj(*[sym_eq(y, x) for y in cont])
    return x in cont


class _Hooks:
    """Namespace injected into the instrumented modules."""

    @staticmethod
    def is_(a, b):
        if Ctx.cur is None:
            return a is b
        if a is b:
            return True
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            a, b = force(a), force(b)
        if a is b:
            return True
        if isinstance(a, SymBool) and isinstance(b, bool):
            return a if b else neg(a)
        if isinstance(b, SymBool) and isinstance(a, bool):
            return b if a else neg(b)
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
            raise Unsupported("identity of symbolic values")
        return False

    @staticmethod
    def isnot(a, b):
        return neg(hooks.is_(a, b)) if Ctx.cur is not None else a is not b

    @staticmethod
    def in_(x, cont):
        if Ctx.cur is None:
            return x in cont
        return contains(cont, x)

    @staticmethod
    def notin(x, cont):
        if Ctx.cur is None:
            return x not in cont
        return neg(contains(cont, x))

    @staticmethod
    def first(it):
        """(the first element,) or None"""
        if Ctx.cur is not None:
            it = force(it)
            if isinstance(it, seq.SymIter):
                it = it._take()
            if isinstance(it, (SymSeq, SList, STuple)):
                return (it[0],) if it.nonempty() else None
            it = viter(it, "first")
        for x in it:
            return (x,)
        return None

    @staticmethod
    def item(o, k):
        """o[k] where k is no constant"""
        if Ctx.cur is None:
            return o[k]
        o, k = force(o), force(k)
        if isinstance(o, dict) and isinstance(k, Sym):
            for key in o:
                if bool(sym_eq(key, k)):
                    return o[key]
            raise KeyError("a key that is not there")
        if isinstance(k, SymBool) and isinstance(o, (tuple, list, STuple, SList)):
            return o[1] if bool(k) else o[0]
        return o[k]

    @staticmethod
    def dict_of(o, fn):
        """o.__dict__ or vars(o)"""
        if Ctx.cur is not None:
            o = force(o)
            if hasattr(type(o), "_vf_for") or isinstance(o, (Sym, Term)):
                if isinstance(o, Sym):
                    if fn:
                        raise TypeError("vars() argument must have __dict__ attribute")
                    raise AttributeError("__dict__")
                raise Unsupported("attributes of a nested object")
        return vars(o) if fn else o.__dict__

    @staticmethod
    def ret_bool(v):
        if Ctx.cur is None:
            return v
        v = force(v)
        if isinstance(v, SymBool):
            return bool(v)
        return v

    @staticmethod
    def fstr(*parts):
        if Ctx.cur is None:
            out = []
            for p in parts:
                if isinstance(p, str):
                    out.append(p)
                else:
                    v, conv, spec = p
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = str(v)
                    elif conv == 97:
                        v = ascii(v)
                    out.append(format(v, spec))
            return "".join(out)
        return concat([p if isinstance(p, str) else fmt(*p) for p in parts])

    @staticmethod
    def iter(v, loc, carried):
        if Ctx.cur is None:
            return iter(v)
        return viter(v, loc, carried)

    @staticmethod
    def depth():
        return len(Ctx.cur.generic) if Ctx.cur is not None else 0

    @staticmethod
    def undepth(d):
        seq.undepth(d)

    @staticmethod
    def store(loc, obj=None):
        c = Ctx.cur
        if c is not None:
            if c.generic and getattr(type(obj), "_vf_depth", lambda o: -1)(obj) != len(c.generic):
                raise Unsupported(f"assignment inside a loop of unknown length at {loc}")
            c.events.append(("store", loc))

    @staticmethod
    def mklist(l, loc):
        if Ctx.cur is None:
            return l
        return SList(l, loc=loc)

    @staticmethod
    def mklist_it(it, loc):
        if Ctx.cur is None:
            return list(it)
        return collect(it, loc)

    @staticmethod
    def mkset_it(it, loc):
        if Ctx.cur is None:
            return set(it)
        return mkset(collect(it, loc))

    @staticmethod
    def mklist_star(loc, *items):
        if Ctx.cur is None:
            out = []
            for st, v in items:
                out.extend(v) if st else out.append(v)
            return out
        out = SList(loc=loc)
        for st, v in items:
            out.extend(v) if st else out.append(v)
        return out

    @staticmethod
    def mktuple_star(loc, *items):
        l = hooks.mklist_star(loc, *items)
        if isinstance(l, SList) and l.has_star():
            return STuple(l)
        return tuple(l)

    @staticmethod
    def mkdict(d):
        if Ctx.cur is None:
            return d
        return SDict(d)

    @staticmethod
    def spread(v):
        if Ctx.cur is None:
            return v
        es = entries_of(v)
        if es is None:
            l = collect(v, "spread")
            es = l.raw()
        if any(isinstance(x, Star) for x in es):
            l = SList(loc="spread")
            l.extend(v)
            return (Spread(l),)
        return es

    @staticmethod
    def call(loc, f, *args, **kw):
        if Ctx.cur is None:
            return f(*args, **kw)
        return do_call(loc, f, args, kw)


# ---------------------------------------------------------------------------
# calls


def fname(f):
    f = getattr(f, "__func__", f)
    return f"{getattr(f, '__module__', None)}.{getattr(f, '__qualname__', getattr(f, '__name__', '?'))}"


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard",
            "popitem", "sort", "reverse", "__setitem__", "__delitem__"}
CONTAINER_OK = {"append", "insert", "get", "items", "keys", "values", "update", "copy", "setdefault", "pop",
                "clear", "extend", "count_"}


def do_call(loc, f, args, kw):
    c = Ctx.cur
    f = force(f)
    c.steps += 1
    if c.contracts and loc != "harness":
        name = fname(f)
        h = c.contracts.get(name)
        if h is not None:
            c.used_contracts.add(name)
            return h(f, *args, **kw)
    if isinstance(f, type):
        st = CLASS_STUBS.get(f)
        if st is not None:
            return st(*args, **kw)
        if issubclass(f, enum.Enum):
            return enum_call(f, *args, **kw)
        if f.__module__.startswith(LIB) or f.__module__.startswith("vf") or issubclass(f, BaseException):
            if any(isinstance(a, Spread) for a in args):
                raise Unsupported("unknown number of constructor arguments")
            return f(*args, **kw)
        return external(f, args, kw)
    mod = getattr(getattr(f, "__func__", f), "__module__", None) or ""
    self_ = getattr(f, "__self__", None)
    if isinstance(self_, logging.Logger):
        return None
    try:
        st = FUNC_STUBS.get(f)
    except TypeError:
        st = None
    if st is not None:
        return st(*args, **kw)
    if isinstance(f, types.BuiltinMethodType) and self_ is not None and not isinstance(self_, types.ModuleType):
        return builtin_method(f, self_, f.__name__, args, kw)
    if mod.startswith(LIB) or mod.startswith("vf") or mod == "__main__" or mod.startswith("spec"):
        w = getattr(f, "__wrapped__", None)
        if w is not None and hasattr(f, "cache_info"):
            # a cached pure function: the cache is skipped for symbolic arguments
            if has_sym(args) or has_sym(kw):
                c.taint("cached function")
                return w(*args, **kw)
            # the cache of this run: equal arguments give the same result
            key = ("cache", id(f), args, tuple(sorted(kw.items())))
            if key not in c.memo:
                c.memo[key] = w(*args, **kw)
            return c.memo[key]
        if any(isinstance(a, Spread) for a in args):
            raise Unsupported("unknown number of arguments")
        return f(*args, **kw)
    if isinstance(f, (types.MethodType, types.FunctionType, types.BuiltinFunctionType)) or callable(f):
        return external(f, args, kw)
    return f(*args, **kw)


def builtin_method(f, self_, name, args, kw):
    c = Ctx.cur
    if isinstance(self_, dict) and name == "pop" and len(args) == 2 and not has_sym(args[0]) and args[0] not in self_:
        return args[1]
    if isinstance(self_, (list, dict, set)) and not isinstance(self_, (SList, SDict)) and name in MUTATORS and c.generic:
        raise Unsupported("container changed inside a loop of unknown length")
    if isinstance(self_, str):
        if name == "join":
            return seq.join(self_, args[0])
        if not has_sym(args) and not has_sym(kw):
            return f(*args, **kw)
        if name in ("startswith", "endswith"):
            p = force(args[0])
            if isinstance(p, SymStr):
                g = z3.PrefixOf if name == "startswith" else z3.SuffixOf
                return wrap_bool(g(p.e, str_expr(self_)))
        if name == "format":
            return str_format(self_, args, kw)
        raise Unsupported(f"str.{name} with symbolic arguments")
    if isinstance(self_, type) and issubclass(self_, dict) and name == "fromkeys":
        return f(*args, **kw)
    if isinstance(self_, (list, dict, set, tuple)):
        if isinstance(self_, dict) and name in ("get", "pop", "setdefault", "__getitem__"):
            k = force(args[0])
            if isinstance(k, Sym):
                for key in self_:
                    if bool(sym_eq(key, k)):
                        return f(key, *args[1:])
                if len(args) < 2 and name in ("pop", "__getitem__"):
                    raise KeyError("a key that is not there")
                if name == "setdefault":
                    raise Unsupported("setdefault with a symbolic key")
                return args[1] if len(args) > 1 else None
            return f(k, *args[1:], **kw)
        if name in CONTAINER_OK or not (has_sym(args) or has_sym(self_)):
            return f(*args, **kw)
        if name in ("index", "count", "remove"):
            raise Unsupported(f"{name} with symbolic values")
        return f(*args, **kw)
    if not has_sym(args) and not has_sym(kw):
        return f(*args, **kw)
    return external(f, args, kw)


def str_format(s, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            raise Unsupported("format field")
        if spec and "{" in spec:
            raise Unsupported("nested format")
        out.append(fmt(v, ord(conv) if conv else -1, spec or ""))
    return concat(out)


EXT: dict = {}


def ext(name):
    def deco(f):
        EXT[name] = f
        return f
    return deco


def external(f, args, kw):
    c = Ctx.cur
    n = fname(f)
    h = EXT.get(n)
    if h is not None and (has_sym(args) or has_sym(kw) or getattr(h, "always", False)):
        return h(f, args, kw)
    if has_sym(args) or has_sym(kw) or has_sym(getattr(f, "__self__", None)):
        if n == "typing.cast":
            return args[1]
        if n.startswith("logging."):
            return None
        raise Unsupported(f"external call {n}")
    args2 = [a for a in args]
    return f(*args2, **kw)


def enum_call(E, value, *a, **k):
    v = force(value)
    if not isinstance(v, (Sym, Term)):
        if isinstance(v, str) or not has_sym(v):
            # concrete: member lookup, then the class's own _missing_
            for m in E:
                if m.value == v:
                    return m
            if v in list(E):
                return v
            r = E._missing_(v)
            if r is None:
                raise ValueError(f"{v!r} is not a valid {E.__qualname__}")
            return r
    if isinstance(v, SymStr):
        for m in E:
            if isinstance(m.value, str) and bool(sym_eq(v, m.value)):
                return m
    elif isinstance(v, (SymInt, SymBool, SymReal)):
        for m in E:
            if not isinstance(m.value, str) and bool(sym_eq(v, m.value)):
                return m
    elif isinstance(v, Term):
        raise Unsupported("enumeration lookup of an external value")
    r = E._missing_(v)
    if r is None:
        raise ValueError("not a valid member")
    return r


# -- regular expressions

WS = " \t\n\r\x0b\x0c"
UWS = "".join(ch for ch in map(chr, range(0x3100)) if ch.isspace())


def _chars(cs):
    return z3.Union(*[z3.Re(core.str_val(c)) for c in cs]) if len(cs) > 1 else z3.Re(core.str_val(cs))


def _any():
    return z3.AllChar(z3.ReSort(STR))


def gap_lang(sep):
    if not isinstance(sep, seq.Gap):
        return z3.Re(core.str_val(sep))
    if sep.kind == "white":
        return z3.Plus(_chars(WS))
    return z3.Concat(z3.Re(core.str_val(",")), z3.Star(z3.Re(core.str_val(" "))))


def in_separators(pattern):
    """Every match is non-empty and consists of whitespace and commas."""
    c = ctx()
    key = ("re-sep", pattern)
    if key not in c.memo:
        s = z3.Solver()
        s.set("timeout", 5000)
        x = z3.Const("re!text", STR)
        s.add(z3.InRe(x, re_z3(pattern)))
        s.add(z3.Not(z3.InRe(x, z3.Plus(_chars(UWS + ",")))))
        c.memo[key] = s.check() == z3.unsat
        c.queries += 1
    return c.memo[key]


def change_separators(text, change, what):
    """The effect of replacing inside the separators of a joined text (its
    tokens contain neither whitespace nor commas, so each separator is changed
    by itself)."""
    def image(sep):
        words = sep.samples() if isinstance(sep, seq.Gap) else [sep]
        out = [change(w) for w in words]
        if len(set(out)) == 1 and out[0].strip() in ("", ",") and out[0]:
            if isinstance(sep, seq.Gap):
                ctx().assumptions.add(f"{what}: the same result for every number of blanks after a comma (evaluated up to 11)")
            return out[0]
        if isinstance(sep, seq.Gap) and sep.kind == "white" and all(o and o.isspace() for o in out):
            if out != words:
                ctx().assumptions.add(f"{what}: whitespace stays whitespace (evaluated up to length 3)")
            return sep
        raise Unsupported(what)

    if text.pad and any(change(w).strip() for w in seq.Gap("white").samples()):
        raise Unsupported(what)
    return seq.resep(text, image)


def re_lang(v):
    """A regular language that contains every value of this text."""
    v = force(v)
    if isinstance(v, str):
        return z3.Re(core.str_val(v))
    if isinstance(v, JoinStr):
        es = [re_lang(x) for x in _leaves(v.entries)]
        one = z3.Union(*es) if len(es) > 1 else es[0]
        r = z3.Concat(one, z3.Star(z3.Concat(gap_lang(v.sep), one)))
        if v.pad:
            w = z3.Star(_chars(WS))
            r = z3.Concat(w, r, w)
        return r
    if getattr(v, "clean", None) == "token":
        return z3.Plus(z3.Diff(_any(), _chars(UWS + ",")))
    raise Unsupported("language of a text")


def _leaves(entries):
    for x in entries:
        if isinstance(x, Star):
            yield from _leaves(x.entries)
        else:
            yield x


def re_z3(pattern, flags=0):
    """The language of a Python regular expression (without anchors, groups by
    reference or flags)."""
    import re._constants as k
    import re._parser as pr
    p = pr.parse(pattern, flags)

    def seq_(items):
        out = [node(x) for x in items]
        return z3.Concat(*out) if len(out) > 1 else out[0] if out else z3.Re("")

    def cls(op, arg):
        if op is k.LITERAL:
            return z3.Re(core.str_val(chr(arg)))
        if op is k.RANGE:
            return z3.Range(core.str_val(chr(arg[0])), core.str_val(chr(arg[1])))
        if op is k.CATEGORY:
            if arg is k.CATEGORY_SPACE:
                return _chars(UWS)
            if arg is k.CATEGORY_DIGIT:
                return z3.Union(z3.Range("0", "9"), z3.Range(core.str_val("\x80"), core.str_val("\uffff")))
        raise Unsupported("regular expression class")

    def node(x):
        op, arg = x
        if op is k.LITERAL:
            return z3.Re(core.str_val(chr(arg)))
        if op is k.ANY:
            return _any()
        if op is k.IN:
            if arg and arg[0][0] is k.NEGATE:
                if any(o is k.CATEGORY for o, _ in arg[1:]):
                    raise Unsupported("negated class")
                rs = [cls(*a) for a in arg[1:]]
                return z3.Diff(_any(), z3.Union(*rs) if len(rs) > 1 else rs[0])
            rs = [cls(*a) for a in arg]
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        if op in (k.MAX_REPEAT, k.MIN_REPEAT):
            lo, hi, sub = arg
            r = seq_(sub)
            if hi == k.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Concat(*([r] * (lo - 1) + [z3.Plus(r)])) if lo > 1 else z3.Plus(r)
            return z3.Loop(r, lo, hi)
        if op is k.SUBPATTERN:
            return seq_(arg[3])
        if op is k.BRANCH:
            rs = [seq_(b) for b in arg[1]]
            return z3.Union(*rs)
        raise Unsupported(f"regular expression {op}")
    return seq_(p)


def never_matches(pattern, text):
    key = ("re", pattern, text.e.sexpr())
    c = ctx()
    if key not in c.memo:
        s = z3.Solver()
        s.set("timeout", 5000)
        x = z3.Const("re!text", STR)
        full = z3.Full(z3.ReSort(STR))
        s.add(z3.InRe(x, re_lang(text)))
        s.add(z3.InRe(x, z3.Concat(full, re_z3(pattern), full)))
        c.memo[key] = s.check() == z3.unsat
        c.queries += 1
    return c.memo[key]


@ext("re.sub")
def _re_sub(f, args, kw):
    """A pattern that occurs nowhere leaves the text as it is."""
    pattern, repl, text = args[:3]
    text = force(text)
    if isinstance(pattern, str) and isinstance(text, SymStr) and len(args) == 3 and not kw and never_matches(pattern, text):
        return text
    if isinstance(pattern, str) and isinstance(repl, str) and isinstance(text, JoinStr) and text.tok and len(args) == 3 and not kw \
            and in_separators(pattern):
        return change_separators(text, lambda w: re.sub(pattern, repl, w), f"re.sub({pattern!r}, {repl!r}, text)")
    raise Unsupported("external call re.sub")


@ext("math.isclose")
def _isclose(f, args, kw):
    """|a - b| <= max(rel_tol * max(|a|, |b|), abs_tol), as documented."""
    a, b = map(force, args)
    rel, low = force(kw.get("rel_tol", 1e-09)), force(kw.get("abs_tol", 0.0))
    if not all(isinstance(v, (SymInt, SymReal, int, float)) for v in (a, b)) or has_sym((rel, low)):
        raise Unsupported("external call math.isclose")
    d = s_abs(a - b)
    return disj(sym_eq(a, b), d <= s_abs(a) * rel, d <= s_abs(b) * rel, d <= low)


def _finite(f, args, kw):
    """Numbers are mathematical reals."""
    if not isinstance(force(args[0]), (SymInt, SymReal)):
        raise Unsupported("external call " + fname(f))
    core.ctx().taint("float arithmetic")
    return f.__name__ == "isfinite"


for _n in ("isnan", "isinf", "isfinite"):
    ext("math." + _n)(_finite)


class Url:
    """The parts of a URL: what follows the first '#' is the fragment."""

    def __init__(self, text, n):
        self.text, self.n = text, n

    def parts(self):
        def other():
            raise Unsupported("another part of an arbitrary URL")
        return tuple(Lazy("url part", other, optional=False) for _ in range(self.n - 1)) + (self.fragment,)

    def __getitem__(self, i):
        return self.parts()[i]

    def __len__(self):
        return self.n

    @property
    def fragment(self):
        return self.text.partition("#")[2]

    def __getattr__(self, name):
        raise Unsupported(f"{name} of an arbitrary URL")

    def __iter__(self):
        return iter(self.parts())


def _url(f, args, kw):
    text = force(args[0]) if len(args) == 1 and not kw else None
    if not isinstance(text, SymStr):
        raise Unsupported("external call " + f.__name__)
    if f.__name__ == "urldefrag":
        return text.partition("#")[::2]
    return Url(text, 6 if f.__name__ == "urlparse" else 5)


for _n in ("urlparse", "urlsplit", "urldefrag"):
    ext("urllib.parse." + _n)(_url)

# -- built-in classes and functions


def s_bool(v=False):
    v = force(v)
    if isinstance(v, SymBool):
        return v
    if isinstance(v, SymStr):
        return wrap_bool(v.e != z3.StringVal(""))
    if isinstance(v, (SymInt, SymReal)):
        return wrap_bool(v.e != 0)
    if isinstance(v, (SymSeq, SList, STuple)):
        return v.nonempty()
    return bool(v)


def s_int(v=0, *a, **k):
    v = force(v)
    if a or k:
        if has_sym(v):
            raise Unsupported("int with base")
        return int(v, *a, **k)
    if isinstance(v, SymBool):
        return 1 if bool(v) else 0
    if isinstance(v, SymInt):
        return v
    if isinstance(v, SymReal):
        c = ctx()
        n = c.fresh("trunc", INT)
        r = z3.ToReal(n)
        c.add(z3.If(v.e >= 0, z3.And(r <= v.e, v.e < r + 1), z3.And(r >= v.e, v.e > r - 1)))
        return SymInt(n)
    if isinstance(v, SymStr) and hasattr(v, "number"):
        n = v.number()
        if n is not None:
            return n
        int(v.skeleton())   # raises what int raises for every such text
        raise Unsupported("int of a text with digits")
    if isinstance(v, SymStr):
        c = ctx()
        ok = c.app("int_ok", v.e, BOOL)
        if not c.branch(ok):
            raise ValueError("invalid literal for int()")
        if getattr(v, "clean", False):
            return SymInt(c.app("int_of", v.e, INT))
        st = c.app("strip", v.e, STR)
        r = c.app("int_of", st, INT)
        c.add(c.app("int_of", v.e, INT) == r)
        return SymInt(r)
    if isinstance(v, Term):
        raise Unsupported("int of external value")
    return int(v)


def s_float(v=0.0):
    v = force(v)
    if isinstance(v, SymBool):
        return 1.0 if bool(v) else 0.0
    if isinstance(v, SymInt):
        return SymReal(z3.ToReal(v.e))
    if isinstance(v, SymReal):
        return v
    if isinstance(v, SymStr):
        c = ctx()
        ok = c.app("float_ok", v.e, BOOL)
        if not c.branch(ok):
            raise ValueError("could not convert string to float")
        if getattr(v, "clean", False):
            return SymReal(c.app("float_of", v.e, REAL))
        st = c.app("strip", v.e, STR)
        r = c.app("float_of", st, REAL)
        c.add(c.app("float_of", v.e, REAL) == r)
        return SymReal(r)
    if isinstance(v, Term):
        raise Unsupported("float of external value")
    return float(v)


def s_str(v="", *a, **k):
    return to_str(v)


def s_list(it=()):
    it = force(it)
    if isinstance(it, (SymSeq, SList, STuple)):
        l = SList(loc="list()")
        l.extend(it)
        return l
    if isinstance(it, Sym):
        raise Unsupported("list of symbolic")
    return collect(it, "list()")


def s_tuple(it=()):
    it = force(it)
    if isinstance(it, tuple):
        return it
    l = s_list(it)
    if l.has_star():
        return STuple(l)
    return tuple(list.__iter__(l))


class SSet:
    """A set of texts some of which are symbolic, or from sequences of unknown length."""

    _vf_symbolic = True
    pytype = set

    def __init__(self, known, others):
        self.known = known        # surely in it
        self.others = others      # values of arbitrary elements of non-empty sequences
        self.n = None

    def __bool__(self):
        return bool(self.known or self.others)

    def length(self):
        if self.n is None:
            c = ctx()
            self.n = c.fresh("setlen", INT)
            vs = self.known + self.others
            c.add(self.n >= 1)
            if not self.others:
                c.add(self.n <= len(self.known))
            alike = [core.bexpr(sym_eq(v, vs[0])) for v in vs[1:]]
            one = z3.And(*alike) if alike else z3.BoolVal(True)
            # the others stand for many values: all alike is only necessary
            c.add(z3.Implies(self.n == 1, one) if self.others else (self.n == 1) == one)
            if self.others:
                c.taint("number of different values in a sequence")
        return SymInt(self.n)

    def __len__(self):
        raise Unsupported("len of a set through C")

    def pop(self):
        if bool(wrap_bool(num_expr(self.length()) == 1)):
            return (self.known + self.others)[0]
        raise Unsupported("some element of a set")

    def __iter__(self):
        raise Unsupported("iteration over a set of symbolic values")

    def __contains__(self, x):
        raise Unsupported("membership in a set of symbolic values")

    def __eq__(self, o):
        raise Unsupported("equality of sets of symbolic values")

    __hash__ = None


def mkset(l):
    known, others = [], []

    def clean(x):
        if x.frame is not None:
            return not x.frame.dirty
        return isinstance(x.src, SymSeq) and not isinstance(x.src, DerivedSeq) and not x.src.varied

    def walk(es, fixed):
        for x in es:
            if isinstance(x, Star):
                if not x.entries and not (fixed and clean(x)):
                    raise Unsupported("set of values of some elements")
                walk(x.entries, fixed and clean(x))
            else:
                x = force(x)
                (known if fixed and not has_sym(x) else others).append(x)

    for x in l.raw():
        if isinstance(x, Star):
            walk([x], True)
        else:
            known.append(force(x))
    if not others and not has_sym(known):
        return set(known)
    if not all(isinstance(x, (str, SymStr)) for x in known + others):
        raise Unsupported("set of symbolic values")
    return SSet(known, others)


def s_set(it=()):
    return mkset(s_list(force(it)))


def s_frozenset(it=()):
    r = s_set(it)
    return r if isinstance(r, SSet) else frozenset(r)


def s_dict(*a, **k):
    return SDict(*[list(x) if isinstance(x, SList) else x for x in a], **k)


def s_type(*a):
    if len(a) == 1:
        v = force(a[0])
        t = kind_of(v)
        if isinstance(v, SymSeq):
            return v.pytype
        if isinstance(v, SList):
            return list
        if isinstance(v, SDict):
            return dict
        return getattr(t, "_vf_for", getattr(t, "_vf_pytype", t))
    return type(*a)


def s_isinstance(v, t):
    v = force(v)
    if isinstance(t, tuple):
        return any(s_isinstance(v, x) for x in t)
    if isinstance(v, (Sym, Term)):
        return issubclass(v.pytype, t)
    if isinstance(v, SymSeq) or isinstance(v, STuple):
        return issubclass(v.pytype, t)
    if hasattr(type(v), "_vf_pytype"):
        return issubclass(type(v)._vf_pytype, t)
    return isinstance(v, t)


def s_issubclass(a, b):
    return issubclass(a, b)


def s_len(v):
    v = force(v)
    if isinstance(v, SymStr):
        return v.length()
    if isinstance(v, (SymSeq, SList, STuple, SSet)):
        return v.length()
    return len(v)


def s_getattr(o, name, *d):
    o = force(o)
    if isinstance(name, Sym):
        raise Unsupported("symbolic attribute name")
    return getattr(o, name, *d)


def s_hasattr(o, name):
    return hasattr(force(o), name)


def s_setattr(o, name, v):
    c = ctx()
    if c.generic:
        raise Unsupported("setattr inside a loop of unknown length")
    return setattr(o, name, v)


def s_all(it):
    return seq.quantify("all", it, s_bool, "all")


def s_any(it):
    return seq.quantify("any", it, s_bool, "any")


def s_next(it, *d):
    c = ctx()
    it = force(it)
    if isinstance(it, seq.SymIter):
        return it.first(*d)
    depth = len(c.generic)
    for x in viter(force(it), "next"):
        if len(c.generic) > depth:
            c.poison = "first element of an unbounded iteration"
            raise Unsupported(c.poison)
        return x
    if d:
        return d[0]
    raise StopIteration


def s_iter(it, *a):
    return viter(it, "iter")


def s_zip(*its, **k):
    if not has_sym(its) and not any(isinstance(i, types.GeneratorType) for i in its):
        return zip(*its, **k)
    return seq.zip_shortest(*[i if entries_of(i) is not None else collect(i, "zip") for i in its])


def s_zip_longest(*its, fillvalue=None):
    its = [i if entries_of(i) is not None else collect(i, "zip") for i in its]
    return seq.zip_longest(*its, fillvalue=fillvalue)


def s_enumerate(it, start=0):
    it = force(it)
    es = entries_of(it)
    if es is not None and any(isinstance(x, Star) for x in es):
        raise Unsupported("enumerate")
    return enumerate(it, start)


def s_reversed(it):
    it = force(it)
    es = entries_of(it)
    if es is not None and any(isinstance(x, Star) for x in es):
        return seq.reversed_seq(it)
    if isinstance(it, SList):
        return iter(list.__getitem__(it, slice(None, None, -1)))
    return reversed(it)


def s_map(f, *its):
    if len(its) != 1:
        if has_sym(its):
            raise Unsupported("map over several sequences")
        return map(f, *its)

    def g():
        for x in viter(its[0], "map"):
            yield do_call("map", f, (x,), {})
    return g()


def s_filter(f, it):
    def g():
        for x in viter(it, "filter"):
            if f is None:
                if bool(s_bool(x)):
                    yield x
            elif bool(s_bool(do_call("filter", f, (x,), {}))):
                yield x
    return g()


def s_repr(v):
    return to_repr(v)


def s_format(v, spec=""):
    return fmt(v, -1, spec)


def s_round(v, n=None):
    v = force(v)
    if isinstance(v, Sym):
        return v.__round__(n)
    return round(v, n) if n is not None else round(v)


def s_abs(v):
    v = force(v)
    return v.__abs__() if isinstance(v, Sym) else abs(v)


def s_sorted(it, **k):
    if type(it) is dict and not has_sym(list(it)):
        it = list(it)
    if has_sym(it):
        raise Unsupported("sorted")
    return sorted(it, **k)


def s_sum(it, *a):
    l = collect(it, "sum")
    if l.has_star():
        raise Unsupported("sum over an unknown number of values")
    return sum(list.__iter__(l), *a)


def s_minmax(fn):
    def g(*a, **k):
        a = tuple(force(x) for x in a)
        if len(a) > 1 and not k and has_sym(a) and all(isinstance(x, (SymInt, SymReal, int, float)) for x in a):
            r = a[0]
            for x in a[1:]:
                if bool(x < r if fn is min else x > r):
                    r = x
            return r
        if has_sym(a):
            raise Unsupported(fn.__name__)
        return fn(*a, **k)
    return g


def s_id(v):
    return id(v)


def s_callable(v):
    return callable(force(v))


def s_chain(*its):
    def g():
        for i in its:
            yield from viter(i, "chain")
    return g()


CLASS_STUBS = {
    bool: s_bool, int: s_int, float: s_float, str: s_str, list: s_list, tuple: s_tuple, set: s_set,
    frozenset: s_frozenset, dict: s_dict, type: s_type, zip: s_zip, enumerate: s_enumerate,
    reversed: s_reversed, map: s_map, filter: s_filter, itertools.zip_longest: s_zip_longest,
    itertools.chain: s_chain,
}

FUNC_STUBS = {
    isinstance: s_isinstance, issubclass: s_issubclass, len: s_len, getattr: s_getattr, hasattr: s_hasattr,
    setattr: s_setattr, all: s_all, any: s_any, next: s_next, iter: s_iter, repr: s_repr, format: s_format,
    round: s_round, abs: s_abs, sorted: s_sorted, sum: s_sum, min: s_minmax(min), max: s_minmax(max),
    id: s_id, callable: s_callable, typing.cast: lambda t, v: v,
    itertools.chain.from_iterable: lambda its: s_chain(*list(its)),
}

hooks = _Hooks()
