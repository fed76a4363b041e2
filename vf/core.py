"""Symbolic values, path exploration and obligations.

The real functions of /repo run under CPython (instrumented by rewrite.py); the
values they work on are the proxies below.  Every truth test on a symbolic value
asks the SMT solver which outcomes are possible and the harness is re-executed
for each of them, so all paths are covered; obligations are discharged by the
solver under the path condition.
"""
from __future__ import annotations

import time

import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """The engine cannot model this; the obligation stays undecided."""


class Infeasible(BaseException):
    """The assumptions of this path contradict each other."""


class PathLimit(BaseException):
    pass


STR = z3.StringSort()
INT = z3.IntSort()
REAL = z3.RealSort()
BOOL = z3.BoolSort()

_ufs: dict = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


def _native_float_ok(s):
    try:
        float(s)
    except ValueError:
        return False
    return True


def _native_int_ok(s):
    try:
        int(s)
    except ValueError:
        return False
    return True


# string functions that stay uninterpreted; the native function gives their
# value on every constant that turns up (ground instances)
NATIVE = {
    "strip": lambda s: s.strip(),
    "lower": lambda s: s.lower(),
    "float_ok": _native_float_ok,
    "int_ok": _native_int_ok,
    "float_of": lambda s: float(s) if _native_float_ok(s) else None,
    "int_of": lambda s: int(s) if _native_int_ok(s) else None,
}


class Ctx:
    """One execution of a harness along one path."""

    cur: "Ctx | None" = None

    def __init__(self, prefix, opts):
        self.opts = opts
        self.prefix = prefix
        self.trace = []          # decisions actually taken
        self.pending = []        # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_timeout", 3000))
        self.pc = []
        self.defs = []           # the part of it that holds whatever was decided
        self.consults = []       # stack of recorders (see seq.quantify)
        self.decisions = 0       # decisions taken or looked up so far
        self.inputs = {}         # name -> proxy / python value (for countermodels)
        self.obligations = []
        self.tainted = False
        self.taint_reason = None
        self.assumptions = set()
        self.counter = 0
        self.uf_apps = []        # (fname, arg expr, app expr)
        self._uf_seen = set()
        self.consts = set()
        self.generic = []        # stack of active generic loops
        self.lists = []          # tracked lists of this path
        self.touched = opts.setdefault("touched", set())
        self.new_touched = False
        self.star_ord = {}
        self.keep = []
        self.memo = {}
        self.side = "code"
        self.solver_time = 0.0
        self.queries = 0
        self.steps = 0
        self.contracts = dict(opts.get("contracts", {}))
        self.used_contracts = set()
        self.events = []
        self.deadline = opts.get("deadline")
        self.poison = None

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def add(self, e):
        self.pc.append(e)
        self.defs.append(e)
        self.solver.add(e)

    def decided(self, e):
        self.decisions += 1
        for r in self.consults:
            r.append(e)
        if e is not None:
            self.pc.append(e)
            self.solver.add(e)

    def fresh(self, base, sort):
        self.counter += 1
        return z3.Const(f"{base}!{self.counter}", sort)

    def taint(self, why):
        self.tainted = True
        self.taint_reason = self.taint_reason or why

    def app(self, fname, arg, res_sort):
        """Apply a string function, with its ground axioms."""
        f = uf(fname, STR, res_sort)
        e = f(arg)
        key = (fname, arg.sexpr())
        if key not in self._uf_seen:
            self._uf_seen.add(key)
            self.uf_apps.append((fname, arg, e))
            for c in list(self.consts):
                self._ground(fname, arg, e, c)
            if fname == "strip":
                self.add(f(e) == e)
                self.add(z3.Length(e) <= z3.Length(arg))
            elif fname == "lower":
                self.add(f(e) == e)
                self.add((z3.Length(e) == 0) == (z3.Length(arg) == 0))
            elif fname in ("float_ok", "int_ok"):
                self.add(z3.Implies(arg == z3.StringVal(""), z3.Not(e)))
                st = uf("strip", STR, STR)
                self.add(f(st(arg)) == e)
                self.add(f(uf("lower", STR, STR)(arg)) == e)
            elif fname in ("float_of", "int_of"):
                # Python's parsers ignore surrounding whitespace and letter case
                self.add(f(uf("strip", STR, STR)(arg)) == e)
                self.add(f(uf("lower", STR, STR)(arg)) == e)
        return e

    def _ground(self, fname, arg, e, c):
        nat = NATIVE[fname](c)
        if nat is None:
            return
        if isinstance(nat, bool):
            v = z3.BoolVal(nat)
        elif isinstance(nat, str):
            v = z3.StringVal(nat)
        elif isinstance(nat, int):
            v = z3.IntVal(nat)
        else:
            if nat != nat or nat in (float("inf"), float("-inf")):
                return
            v = real_val(nat)
        self.add(z3.Implies(arg == z3.StringVal(c), e == v))

    def const(self, c):
        if c not in self.consts and len(self.consts) < 80:
            self.consts.add(c)
            for fname, arg, e in self.uf_apps:
                self._ground(fname, arg, e, c)

    # -- decisions --------------------------------------------------------
    def branch(self, e, label=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.steps += 1
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time budget")
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.decided(e if d else z3.Not(e))
            return d
        if i > self.opts.get("max_depth", 400):
            raise PathLimit("path too long")
        rt = self._check(e)
        rf = self._check(z3.Not(e))
        t_ok = rt != z3.unsat
        f_ok = rf != z3.unsat
        if not t_ok and not f_ok:
            raise Infeasible
        if t_ok and f_ok:
            self.pending.append(self.trace + [False])
            d = True
        else:
            d = t_ok
        self.trace.append(d)
        self.decided(e if d else z3.Not(e))
        return d

    def choose(self, name, n):
        """n-way choice (input enumeration); recorded by index."""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
            d = 0
        self.trace.append(d)
        self.decided(None)
        return d

    def assume(self, e):
        e = lift(e)
        if e is True:
            return
        if e is False:
            raise Infeasible
        if isinstance(e, SymBool):
            self.pc.append(e.e)
            self.solver.add(e.e)
        if self._check() == z3.unsat:
            raise Infeasible


def ctx() -> Ctx:
    return Ctx.cur


def real_val(x):
    from fractions import Fraction
    fr = Fraction(x)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


# ---------------------------------------------------------------------------
# proxies


class Sym:
    """Base of the scalar proxies."""

    __slots__ = ("e",)
    pytype = object

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __index__(self):
        raise Unsupported("symbolic value used as index")

    def __float__(self):
        raise Unsupported("symbolic value converted by C code")

    def __str__(self):
        raise Unsupported("symbolic value converted by C code")

    def __format__(self, spec):
        raise Unsupported("symbolic value formatted by C code")

    def __repr__(self):
        return f"<sym {self.e}>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(self.pytype, name):
            raise Unsupported(f"{self.pytype.__name__}.{name} on a symbolic value")
        raise AttributeError(
            f"'{self.pytype.__name__}' object has no attribute '{name}'"
        )


class SymBool(Sym):
    __slots__ = ()
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return neg(sym_eq(self, o))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __int__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return f"<sym {self.e}>"


class _Num(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return neg(sym_eq(self, o))

    __hash__ = Sym.__hash__

    def _cmp(self, o, op):
        oe = num_expr(o)
        if oe is None:
            return NotImplemented
        return wrap_bool(op(self.e, oe))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _arith(self, o, op):
        oe = num_expr(o)
        if oe is None:
            return NotImplemented
        # float arithmetic treated as exact real arithmetic
        if isinstance(self, SymReal) or isinstance(o, (SymReal, float)):
            ctx().taint("float arithmetic")
        return wrap_num(op(self.e, oe))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return wrap_num(-self.e)

    def __abs__(self):
        return wrap_num(z3.If(self.e >= 0, self.e, -self.e))

    def __round__(self, n=None):
        ctx().taint("round")
        if n is None:
            return SymInt(ctx().fresh("round", INT))
        return SymReal(uf("round", REAL, INT, REAL)(z3.ToReal(self.e) if self.e.sort() == INT else self.e,
                                                   num_expr(n)))


class SymInt(_Num):
    __slots__ = ()
    pytype = int

    def __init__(self, e):
        self.e = e


class SymReal(_Num):
    __slots__ = ()
    pytype = float

    def __init__(self, e):
        self.e = e


def num_expr(o):
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return real_val(o)
    if isinstance(o, _Num):
        return o.e
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, Lazy):
        return num_expr(o.force())
    return None


def wrap_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def wrap_num(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e) if e.sort() == INT else SymReal(e)


def wrap_str(e, parts=None):
    if z3.is_string_value(e):
        return decode_str(e)
    e2 = z3.simplify(e)
    if z3.is_string_value(e2):
        return decode_str(e2)
    return SymStr(e, parts)


def decode_str(e):
    s = e.as_string()
    # z3 escapes non-ASCII as \u{..}
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def str_val(s):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == "\\" or o < 32 or o > 126:
            out.append("\\u{%x}" % o)
        else:
            out.append(ch)
    return z3.StringVal("".join(out))


def str_expr(o):
    if isinstance(o, str):
        if len(o) <= 60:
            ctx().const(o) if ctx() else None
        return str_val(o)
    if isinstance(o, SymStr):
        return o.e
    if isinstance(o, Lazy):
        return str_expr(o.force())
    return None


class SymStr(Sym):
    """A symbolic text; ``parts`` remembers how an f-string was put together."""

    __slots__ = ("parts", "clean")
    pytype = str

    def __init__(self, e, parts=None, clean=False):
        self.e = e
        self.parts = parts
        self.clean = clean

    def __bool__(self):
        return ctx().branch(self.e != z3.StringVal(""))

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return neg(sym_eq(self, o))

    __hash__ = Sym.__hash__

    def __len__(self):
        raise Unsupported("len of symbolic text through C")

    def __str__(self):
        raise Unsupported("symbolic text converted by C code")

    __format__ = __mod__ = lambda self, *a: self.__str__()

    def __repr__(self):
        return f"<sym {self.e}>"

    def __iter__(self):
        raise Unsupported("iteration over a symbolic text")

    def length(self):
        return wrap_num(z3.Length(self.e))

    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported("strip(chars)")
        if self.clean:
            return self
        r = SymStr(ctx().app("strip", self.e, STR))
        r.clean = True
        return r

    def lower(self):
        return SymStr(ctx().app("lower", self.e, STR))

    def casefold(self):
        ctx().taint("casefold treated as lower")
        return self.lower()

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with positions")
        if isinstance(p, tuple):
            return disj(*[self.startswith(x) for x in p])
        return wrap_bool(z3.PrefixOf(str_expr(p), self.e))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with positions")
        if isinstance(p, tuple):
            return disj(*[self.endswith(x) for x in p])
        return wrap_bool(z3.SuffixOf(str_expr(p), self.e))

    def __add__(self, o):
        e = str_expr(o)
        if e is None:
            return NotImplemented
        return wrap_str(z3.Concat(self.e, e))

    def __radd__(self, o):
        e = str_expr(o)
        if e is None:
            return NotImplemented
        return wrap_str(z3.Concat(e, self.e))

    def __contains__(self, o):
        return bool(wrap_bool(z3.Contains(self.e, str_expr(o))))

    def __getitem__(self, k):
        n = z3.Length(self.e)

        def pos(v, dflt):
            if v is None:
                return dflt
            ve = num_expr(v)
            if isinstance(v, int):
                if v < 0:
                    return z3.If(n + v >= 0, n + v, z3.IntVal(0))
                return z3.If(ve <= n, ve, n)
            raise Unsupported("symbolic slice")

        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step")
            a = pos(k.start, z3.IntVal(0))
            b = pos(k.stop, n)
            return wrap_str(
                z3.If(b > a, z3.SubString(self.e, a, b - a), z3.StringVal("")))
        raise Unsupported("character access")

    def split(self, sep=None, maxsplit=-1):
        from .seq import split_seq
        if maxsplit != -1:
            raise Unsupported("split with a limit")
        return split_seq(self, sep)

    def partition(self, sep):
        p = str_expr(sep)
        if not isinstance(sep, str) or not sep:
            raise Unsupported("partition")
        n, k = z3.Length(self.e), len(sep)
        i = z3.IndexOf(self.e, p, z3.IntVal(0))
        if bool(wrap_bool(z3.Contains(self.e, p))):
            return (wrap_str(z3.simplify(z3.SubString(self.e, 0, i))), sep, wrap_str(z3.simplify(z3.SubString(self.e, i + k, n - i - k))))
        return self, "", ""

    def encode(self, *a, **k):
        return Term("encode", (self,) + a)

    def join(self, it):
        from .seq import join
        return join(self, it)

    def replace(self, a, b, *rest):
        if rest:
            raise Unsupported("replace count")
        c, x, y = ctx(), str_expr(a), str_expr(b)
        r = uf("replace", STR, STR, STR, STR)(self.e, x, y)
        once = z3.Replace(self.e, x, y)
        # exact for texts with at most one occurrence
        c.add(z3.Implies(z3.Not(z3.Contains(self.e, x)), r == self.e))
        c.add(z3.Implies(z3.And(z3.Contains(self.e, x), z3.Not(z3.Contains(once, x))), r == once))
        for fname, arg, e in c.uf_apps:
            if fname == "strip":
                c.add(z3.Contains(arg, e))
                for w in " \n\r\t":
                    c.add(z3.Not(z3.Or(z3.PrefixOf(str_val(w), e), z3.SuffixOf(str_val(w), e))))
        c.taint("replace")
        return SymStr(r)


class Term:
    """Result of an external function: equal when head and arguments agree."""

    def __init__(self, head, args=(), pytype=object, attrs=None, truth=None):
        self.head = head
        self.args = tuple(args)
        self.pytype = pytype
        self.attrs = attrs or {}
        self.truth = truth

    def __getattr__(self, name):
        if name.startswith("__") or name in ("head", "args", "pytype", "attrs", "truth"):
            raise AttributeError(name)
        attrs = self.__dict__["attrs"]
        if name in attrs:
            v = attrs[name]
            if callable(v) and getattr(v, "_thunk", False):
                v = v()
                attrs[name] = v
            return v
        if self.pytype is not object and not hasattr(self.pytype, name):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of {self.head}")

    def __bool__(self):
        if self.truth is None:
            raise Unsupported(f"truth of {self.head}")
        return bool(self.truth)

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return neg(sym_eq(self, o))

    __hash__ = None

    def __repr__(self):
        return f"{self.head}{self.args!r}"


def thunk(f):
    f._thunk = True
    return f


class Lazy:
    """A value whose shape (absent / present) is decided when it is looked at."""

    def __init__(self, name, make, optional=True):
        object.__setattr__(self, "_n", name)
        object.__setattr__(self, "_mk", make)
        object.__setattr__(self, "_v", _UNSET)
        object.__setattr__(self, "_opt", optional)

    def force(self):
        c = ctx()
        if c is not None and c.consults and (self._opt or self._v is _UNSET):
            for r in c.consults:
                r.append(None)
        if self._v is _UNSET:
            if self._opt:
                b = z3.Bool(f"{self._n}?set")
                ctx().inputs.setdefault(f"{self._n}?set", SymBool(b))
                present = ctx().branch(b)
            else:
                present = True
            object.__setattr__(self, "_v", self._mk() if present else None)
        return self._v

    @property
    def forced(self):
        return self._v is not _UNSET

    def __bool__(self):
        return bool(self.force())

    def __eq__(self, o):
        if o is self:
            return True
        return sym_eq(self.force(), o)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = None

    def __getattr__(self, name):
        return getattr(self.force(), name)

    def __iter__(self):
        from .seq import viter
        return viter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __len__(self):
        return len(self.force())

    def __call__(self, *a, **k):
        return self.force()(*a, **k)

    def __repr__(self):
        return f"<lazy {self._n}>"


_UNSET = object()


def force(v):
    while isinstance(v, Lazy):
        v = v.force()
    return v


def is_sym(v):
    return isinstance(v, (Sym, Lazy, Term)) or getattr(v, "_vf_symbolic", False)


# ---------------------------------------------------------------------------
# logic on python-or-symbolic booleans


def lift(v):
    v = force(v)
    if isinstance(v, (bool, SymBool)):
        return v
    return bool(v)


def bexpr(v):
    v = lift(v)
    return v.e if isinstance(v, SymBool) else z3.BoolVal(v)


def conj(*vs):
    return wrap_bool(z3.And(*[bexpr(v) for v in vs])) if vs else True


def disj(*vs):
    return wrap_bool(z3.Or(*[bexpr(v) for v in vs])) if vs else False


def neg(v):
    if v is NotImplemented:
        return v
    return wrap_bool(z3.Not(bexpr(v)))


def implies(a, b):
    return disj(neg(a), b)


def sym_eq(a, b):
    """Python's == on possibly symbolic values, without forking."""
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, Term) or isinstance(b, Term):
        return term_eq(a, b)
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        r = a == b
        return r
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        if hasattr(a, "join_eq"):
            return a.join_eq(b)
        if hasattr(b, "join_eq"):
            return b.join_eq(a)
        return wrap_bool(str_expr(a) == str_expr(b))
    numeric = (bool, int, float, _Num, SymBool)
    if isinstance(a, numeric) and isinstance(b, numeric):
        if isinstance(a, float) and a in (float("inf"), float("-inf")) or a != a if isinstance(a, float) else False:
            return False
        if isinstance(b, float) and (b in (float("inf"), float("-inf")) or b != b):
            return False
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return wrap_bool(bexpr(a) == bexpr(b))
        return wrap_bool(num_expr(a) == num_expr(b))
    return False


def term_eq(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if a.head == b.head and len(a.args) == len(b.args):
            es = [deep_eq(x, y) for x, y in zip(a.args, b.args)]
            r = conj(*es)
            if r is True:
                return True
            if getattr(a, "injective", False):
                return r
            # congruence only: equal arguments give equal results, the converse is open
            c = ctx()
            e = c.fresh("eq_" + a.head, BOOL)
            c.taint("equality of external results")
            c.add(z3.Implies(bexpr(r), e))
            return SymBool(e)
        c = ctx()
        c.taint(f"equality of {a.head} and {b.head}")
        return SymBool(c.fresh("eq", BOOL))
    t, o = (a, b) if isinstance(a, Term) else (b, a)
    if o is None:
        return False
    if t.pytype is not object and not isinstance(o, t.pytype):
        return False
    c = ctx()
    c.taint(f"equality of {t.head} with a value")
    return SymBool(c.fresh("eq", BOOL))


def kind_of(v):
    """Python type of a value, proxies included."""
    if isinstance(v, (Sym, Term)):
        return v.pytype
    return type(v)


def deep_eq(a, b):
    """Structural equality used by the specifications (types included)."""
    from .seq import SList, Star, SymSeq, seq_eq
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)):
        if isinstance(a, Term) or isinstance(b, Term):
            return term_eq(a, b)
        if kind_of(a) is not kind_of(b):
            return False
        return sym_eq(a, b)
    if isinstance(a, (SymSeq, SList)) or isinstance(b, (SymSeq, SList)):
        return seq_eq(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if list(a) != list(b) and set(a) != set(b):
            return False
        return conj(*[deep_eq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj(*[deep_eq(x, y) for x, y in zip(a, b)])
    if hasattr(a, "_vf_eq"):
        return a._vf_eq(b)
    r = a == b
    return r


# ---------------------------------------------------------------------------
# exploration


class Obligation:
    __slots__ = ("label", "status", "model", "reason", "back", "t")

    def __init__(self, label, status, model=None, reason=None, back="z3", t=0.0):
        self.label, self.status, self.model, self.reason, self.back, self.t = (
            label, status, model, reason, back, t)


def explore(run, opts):
    """Run ``run(ctx)`` on every feasible path; returns the contexts.

    Which lists a loop appends to is learned on the way; when a path teaches
    something new, all paths are run again with that knowledge.
    """
    for _round in range(6):
        done = _explore(run, opts)
        if any(c.error for c in done) or not any(c.new_touched for c in done):
            return done
    done[-1].error = "loop analysis did not stabilise"
    return done


def _explore(run, opts):
    stack = [[]]
    done = []
    n = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix, opts)
        Ctx.cur = c
        c.error = None
        c.infeasible = False
        try:
            run(c)
        except Infeasible:
            c.infeasible = True
        except (Unsupported, PathLimit) as e:
            c.error = f"{type(e).__name__}: {e}"
        except z3.Z3Exception as e:
            c.error = f"z3: {e}"
        except RecursionError as e:
            c.error = f"RecursionError: {e}"
        finally:
            Ctx.cur = None
        stack.extend(c.pending)
        done.append(c)
        n += 1
        if c.error and opts.get("stop_on_error", True):
            break
        if n >= opts.get("max_paths", 3000):
            if stack:
                done[-1].error = "PathLimit: too many paths"
            break
        if opts.get("deadline") and time.time() > opts["deadline"]:
            if stack:
                done[-1].error = "PathLimit: time budget"
            break
    return done
