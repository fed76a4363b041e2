"""Symbolic dates and texts of digits.

Assumed contracts of the standard library and of arrow: date and datetime
accept exactly the days of the proleptic Gregorian calendar and give back
their fields; isoformat writes the ISO 8601 form; arrow.get reads the ISO 8601
forms, refuses days that do not exist and texts with dangling hyphens, and may
otherwise give any date-time, ValueError or OverflowError.

A text of digits (``DStr``) is a concatenation of literal characters and
numbers written with a known number of digits.  A regular expression that
treats all ten digits alike gives the same match for all of them.
"""
from __future__ import annotations

import datetime as dtm
import re

import z3

from . import core, stubs
from .core import INT, STR, BOOL, Ctx, Sym, SymBool, SymInt, SymStr, Unsupported, conj, ctx, force, num_expr, uf, wrap_bool, wrap_num
from .stubs import ext


def assumed():
    c = ctx()
    c.memo["dates"] = True
    c.assumptions.add("datetime (standard library): date and datetime accept exactly the days of the Gregorian calendar, keep their fields and "
                      "write the ISO 8601 form; arrow.get reads ISO 8601 date-times with their offset (UTC without one) and refuses days that "
                      "do not exist")


# -- texts of digits


class Dig:
    __slots__ = ("n", "w")

    def __init__(self, n, w):
        self.n, self.w = n, w     # a z3 integer 0 <= n < 10**w

    def expr(self):
        return uf(f"digits{self.w}", INT, STR)(self.n)

    def cut(self, a, b):
        if (a, b) == (0, self.w):
            return self
        return Dig(z3.simplify((self.n / 10 ** (self.w - b)) % 10 ** (b - a)), b - a)

    def __repr__(self):
        return f"<{self.n}:{self.w}>"


def make(parts):
    """Text from literal pieces and Dig pieces."""
    flat = []
    for p in parts:
        if isinstance(p, DStr):
            ps = p.items
        elif isinstance(p, Dig):
            v = z3.simplify(p.n)
            ps = [str(v.as_long()).zfill(p.w) if z3.is_int_value(v) else p]
        else:
            ps = [p]
        for q in ps:
            if isinstance(q, str) and flat and isinstance(flat[-1], str):
                flat[-1] += q
            elif q != "":
                flat.append(q)
    if not any(isinstance(p, Dig) for p in flat):
        return "".join(flat)
    return DStr(flat)


class DStr(SymStr):
    __slots__ = ("items",)

    def __init__(self, items):
        es = [z3.StringVal(p) if isinstance(p, str) else p.expr() for p in items]
        super().__init__(z3.Concat(*es) if len(es) > 1 else es[0])
        self.items = items
        self.clean = "token"
        c = ctx()
        for p in items:
            if isinstance(p, Dig):
                k = ("dig", p.expr().sexpr())
                if k not in c.memo:
                    c.memo[k] = True
                    c.add(z3.Length(p.expr()) == p.w)
        k = ("dstr", self.e.sexpr())
        if k not in c.memo:
            c.memo[k] = True
            c.app("strip", self.e, STR)
            c.add(uf("strip", STR, STR)(self.e) == self.e)
            c.add(self.e != z3.StringVal(""))

    def skeleton(self):
        return "".join(p if isinstance(p, str) else "0" * p.w for p in self.items)

    def __bool__(self):
        return True

    def length(self):
        return len(self.skeleton())

    def slice(self, a, b):
        out, i = [], 0
        for p in self.items:
            n = len(p) if isinstance(p, str) else p.w
            x, y = max(a - i, 0), min(b - i, n)
            if x < y:
                out.append(p[x:y] if isinstance(p, str) else p.cut(x, y))
            i += n
        return make(out)

    def __getitem__(self, k):
        n = self.length()
        if isinstance(k, slice):
            a, b, st = k.indices(n)
            if st != 1:
                raise Unsupported("slice step")
            return self.slice(a, max(a, b))
        k = range(n)[k]
        return self.slice(k, k + 1)

    def join_eq(self, o):
        if isinstance(o, str):
            return self._eq_str(o)
        if not isinstance(o, DStr):
            return wrap_bool(self.e == core.str_expr(o))
        if self.length() != o.length():
            return False
        cuts = sorted({*self.bounds(), *o.bounds()})
        out = []
        for a, b in zip(cuts, cuts[1:]):
            x, y = self.slice(a, b), o.slice(a, b)
            if isinstance(x, str) and isinstance(y, str):
                out.append(x == y)
            elif isinstance(x, str):
                out.append(y._eq_str(x))
            elif isinstance(y, str):
                out.append(x._eq_str(y))
            else:
                out.append(wrap_bool(x.items[0].n == y.items[0].n))
        return conj(*out)

    def bounds(self):
        i, out = 0, [0]
        for p in self.items:
            i += len(p) if isinstance(p, str) else p.w
            out.append(i)
        return out

    def _eq_str(self, o):
        if len(o) != self.length():
            return False
        i, out = 0, []
        for p in self.items:
            n = len(p) if isinstance(p, str) else p.w
            t = o[i:i + n]
            i += n
            if isinstance(p, str):
                if p != t:
                    return False
            elif not (t.isascii() and t.isdigit()):
                return False
            else:
                out.append(wrap_bool(p.n == int(t)))
        return conj(*out)

    def number(self):
        """The number a text of digits only denotes, or None."""
        v = z3.IntVal(0)
        for p in self.items:
            if isinstance(p, str):
                if not (p.isascii() and p.isdigit()):
                    return None
                v = v * 10 ** len(p) + int(p)
            else:
                v = v * 10 ** p.w + p.n
        return wrap_num(v)

    # texts that contain no digits are found at the same places for all digits
    def _free(self, *ts):
        for t in ts:
            if not isinstance(t, str) or any(ch.isdigit() for ch in t):
                raise Unsupported("digits in a text operation")

    def strip(self, chars=None):
        if chars is not None:
            self._free(chars)
        s = self.skeleton()
        a = len(s) - len(s.lstrip(chars))
        return self.slice(a, max(a, len(s.rstrip(chars))))

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            self._free(sep)
        out, i, s = [], 0, self.skeleton()
        for piece in s.split(sep, maxsplit):
            i = s.index(piece, i) if sep is None else i
            out.append(self.slice(i, i + len(piece)))
            i += len(piece) + (len(sep) if sep is not None else 0)
        return out

    def partition(self, sep):
        self._free(sep)
        s = self.skeleton()
        i = s.find(sep)
        if i < 0:
            return self, "", ""
        return self.slice(0, i), sep, self.slice(i + len(sep), len(s))

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return core.disj(*[self.startswith(x) for x in p])
        return stubs.sym_eq(self.slice(0, len(p)), p) if not a else Unsupported

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return core.disj(*[self.endswith(x) for x in p])
        n = self.length()
        return stubs.sym_eq(self.slice(max(0, n - len(p)), n), p)

    def __contains__(self, o):
        self._free(o)
        return o in self.skeleton()

    def find(self, o):
        self._free(o)
        return self.skeleton().find(o)

    def count(self, o):
        self._free(o)
        return self.skeleton().count(o)

    def isdigit(self):
        return self.skeleton().isdigit()

    isdecimal = isnumeric = isdigit

    def upper(self):
        return make([p.upper() if isinstance(p, str) else p for p in self.items])

    def lower(self):
        return make([p.lower() if isinstance(p, str) else p for p in self.items])

    def replace(self, a, b, *rest):
        self._free(a)
        if rest or not a:
            raise Unsupported("replace")
        out = []
        for i, x in enumerate(self.split(a)):
            out += [b, x] if i else [x]
        return make(out)

    def zfill(self, w):
        n = self.length()
        return self if n >= w else make(["0" * (w - n), self])

    rjust = None

    def __add__(self, o):
        return make([self, force(o)]) if isinstance(force(o), (str, DStr)) else SymStr.__add__(self, o)

    def __radd__(self, o):
        return make([force(o), self]) if isinstance(force(o), (str, DStr)) else SymStr.__radd__(self, o)


def digits(v, w):
    """A number known to have at most w digits, written with w digits."""
    if isinstance(v, int):
        return str(v).zfill(w)
    return make([Dig(num_expr(v), w)])


def known(e):
    """Does e follow from what is known on this path?"""
    return ctx()._check(z3.Not(e)) == z3.unsat


def padded(v, spec):
    """format(v, '04d') for a symbolic number, or None."""
    m = re.fullmatch(r"0?([0-9]*)d?", spec)
    if not m or (m[1] and not spec.startswith("0")):
        return None
    e = num_expr(v)
    if not known(z3.And(e >= 0, e < 10 ** 9)):
        return None
    least = int(m[1] or 1)
    for w in range(1, 10):
        if w == 9 or ctx().branch(e < 10 ** w):
            return digits(v, max(w, least))
    return None


class Match:
    """A match of a text of digits."""

    def __init__(self, m, text):
        self.m, self.text = m, text
        self.re, self.string, self.lastindex, self.lastgroup = m.re, text, m.lastindex, m.lastgroup

    _vf_symbolic = True

    def _g(self, k):
        a, b = self.m.span(k)
        return None if a < 0 else self.text.slice(a, b)

    def group(self, *ks):
        ks = [force(k) for k in ks] or [0]
        return self._g(ks[0]) if len(ks) == 1 else tuple(self._g(k) for k in ks)

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(default if (v := self._g(i + 1)) is None else v for i in range(self.m.re.groups))

    def groupdict(self, default=None):
        return {k: (default if (v := self._g(k)) is None else v) for k in self.m.re.groupindex}

    def start(self, k=0):
        return self.m.start(k)

    def end(self, k=0):
        return self.m.end(k)

    def span(self, k=0):
        return self.m.span(k)

    def __bool__(self):
        return True


def alike(pattern):
    """Does the pattern treat all ten digits alike?"""
    from re import _constants as K
    from re import _parser

    def digit(n):
        return 48 <= n <= 57

    def walk(x):
        for op, av in x:
            if op in (K.LITERAL, K.NOT_LITERAL):
                if digit(av):
                    return False
            elif op is K.IN:
                for o, a in av:
                    if o is K.LITERAL and digit(a):
                        return False
                    if o is K.RANGE and not (a[0] <= 48 and a[1] >= 57) and not (a[1] < 48 or a[0] > 57):
                        return False
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
                if not walk(av[2]):
                    return False
            elif op is K.SUBPATTERN:
                if not walk(av[3]):
                    return False
            elif op is K.BRANCH:
                if not all(walk(b) for b in av[1]):
                    return False
            elif op in (K.ASSERT, K.ASSERT_NOT):
                if not walk(av[1]):
                    return False
            elif op is K.ATOMIC_GROUP:
                if not walk(av):
                    return False
            elif op in (K.AT, K.ANY):
                pass
            else:
                return False
        return True

    return walk(_parser.parse(pattern.pattern, pattern.flags))


def _matching(kind):
    def run(f, args, kw):
        return matching(kind, f.__self__, args, kw)

    def run2(f, args, kw):
        return matching(kind, re.compile(args[0], *args[2:], **kw), args[1:2], {})

    EXT = stubs.EXT
    EXT[f"None.Pattern.{kind}"] = run
    EXT[f"re.{kind}"] = run2


def matching(kind, pattern, args, kw):
    text = force(args[0])
    if not isinstance(text, DStr) or len(args) != 1 or kw:
        raise Unsupported(f"regular expression on {type(text).__name__}")
    if not alike(pattern):
        raise Unsupported("regular expression that tells digits apart")
    m = getattr(pattern, kind)(text.skeleton())
    return None if m is None else Match(m, text)


for _k in ("match", "fullmatch", "search"):
    _matching(_k)


# -- dates


def month_days(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def is_day(y, m, d):
    y, m, d = (num_expr(x) for x in (y, m, d))
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_days(y, m))


def is_time(H, M, S, us):
    H, M, S, us = (num_expr(x) for x in (H, M, S, us))
    return z3.And(H >= 0, H < 24, M >= 0, M < 60, S >= 0, S < 60, us >= 0, us < 1000000)


def nums(vs):
    return all(isinstance(force(v), (int, SymInt)) and not isinstance(force(v), bool) for v in vs)


class SDate:
    """A symbolic date."""

    _vf_symbolic = True
    _vf_plain = True
    _vf_pytype = dtm.date

    def __init__(self, y, m, d):
        self.f = tuple(force(x) for x in (y, m, d))

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])

    def _ymd(self):
        y, m, d = self.f[:3]
        return [digits(y, 4), "-", digits(m, 2), "-", digits(d, 2)]

    def isoformat(self):
        return make(self._ymd())

    def strftime(self, fmt):
        out = []
        for t in re.split(r"(%.)", force(fmt)):
            if t == "%Y":
                out.append(padded(self.year, "d") if not isinstance(self.year, int) else str(self.year))
            elif t[:1] == "%" and t[1:] in "mdHMS":
                i = "mdHMS".index(t[1:]) + 1
                out.append(digits(self.f[i], 2) if i < len(self.f) else "00")
            elif t[:1] == "%":
                raise Unsupported(f"strftime {t}")
            else:
                out.append(t)
        return make(out)

    def replace(self, year=None, month=None, day=None):
        new = [force(a) if a is not None else b for a, b in zip((year, month, day), self.f)]
        return new_date(*new)

    def __eq__(self, o):
        o = force(o)
        if type(o) is SDate:
            return conj(*[core.sym_eq(a, b) for a, b in zip(self.f, o.f)])
        if type(o) is dtm.date:
            return conj(*[core.sym_eq(a, b) for a, b in zip(self.f, (o.year, o.month, o.day))])
        return False

    def __ne__(self, o):
        return core.neg(self.__eq__(o))

    _vf_eq = __eq__

    __hash__ = None

    def __bool__(self):
        return True

    def __str__(self):
        return self.isoformat()

    def __repr__(self):
        return f"<date {self.f}>"

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if hasattr(self._vf_pytype, name):
            raise Unsupported(f"{self._vf_pytype.__name__}.{name}")
        raise AttributeError(f"'{self._vf_pytype.__name__}' object has no attribute '{name}'")


class SStamp(SDate):
    """A symbolic date-time; off is None or the offset in minutes."""

    _vf_pytype = dtm.datetime

    def __init__(self, y, m, d, H=0, M=0, S=0, us=0, off=None):
        self.f = tuple(force(x) for x in (y, m, d, H, M, S, us))
        self.off = off

    hour = property(lambda s: s.f[3])
    minute = property(lambda s: s.f[4])
    second = property(lambda s: s.f[5])
    microsecond = property(lambda s: s.f[6])
    tzinfo = property(lambda s: None if s.off is None else Zone(s.off))

    def date(self):
        return SDate(*self.f[:3])

    def isoformat(self, sep="T", timespec="auto"):
        H, M, S, us = self.f[3:]
        out = [*self._ymd(), force(sep), digits(H, 2)]
        if timespec != "hours":
            out += [":", digits(M, 2)]
        if timespec not in ("hours", "minutes"):
            out += [":", digits(S, 2)]
        if timespec == "microseconds" or (timespec == "auto" and bool(core.neg(core.sym_eq(us, 0)))):
            out += [".", digits(us, 6)]
        elif timespec == "milliseconds":
            out += [".", digits(wrap_num(num_expr(us) / 1000), 3)]
        elif timespec not in ("auto", "hours", "minutes", "seconds"):
            raise ValueError("Unknown timespec value")
        if self.off is not None:
            out += offset_text(self.off)
        return make(out)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, fold=0):
        new = [force(a) if a is not None else b for a, b in zip((year, month, day, hour, minute, second, microsecond), self.f)]
        off = self.off
        if tzinfo is not True:
            off = offset_of(tzinfo)
        return new_stamp(*new, off=off)

    def utcoffset(self):
        return None if self.off is None else Delta(self.off)

    def astimezone(self, tz=None):
        raise Unsupported("conversion to another time zone")

    def __eq__(self, o):
        o = force(o)
        if not isinstance(o, SStamp):
            if isinstance(o, dtm.datetime):
                raise Unsupported("comparison with a fixed date-time")
            return False
        if (self.off is None) != (o.off is None):
            return False
        same = conj(*[core.sym_eq(a, b) for a, b in zip(self.f, o.f)])
        if self.off is None:
            return same
        off = core.sym_eq(self.off, o.off)
        e = uf("same_instant", *[INT] * 16, BOOL)(*[num_expr(x) for x in (*self.f, self.off, *o.f, o.off)])
        c = ctx()
        # the same offset: the same instant exactly when the fields agree
        c.add(z3.Implies(core.bexpr(off), e == core.bexpr(same)))
        c.add(z3.Implies(core.bexpr(same), e == core.bexpr(off)))
        return wrap_bool(e)

    def _vf_eq(self, o):
        """The same fields and offset (specifications)."""
        o = force(o)
        if not isinstance(o, SStamp) or (self.off is None) != (o.off is None):
            return False
        return conj(*[core.sym_eq(a, b) for a, b in zip(self.f, o.f)], True if self.off is None else core.sym_eq(self.off, o.off))

    __hash__ = None

    def __str__(self):
        return self.isoformat(sep=" ")

    def __repr__(self):
        return f"<datetime {self.f} {self.off}>"


class Zone:
    _vf_symbolic = True
    _vf_pytype = dtm.tzinfo

    def __init__(self, off):
        self.off = off

    def utcoffset(self, d):
        return Delta(self.off)

    def __eq__(self, o):
        return core.sym_eq(self.off, offset_of(o)) if force(o) is not None else False

    __hash__ = None


class Delta:
    _vf_symbolic = True
    _vf_pytype = dtm.timedelta

    def __init__(self, minutes):
        self.minutes = minutes

    def __eq__(self, o):
        o = force(o)
        if isinstance(o, Delta):
            return core.sym_eq(self.minutes, o.minutes)
        return core.sym_eq(self.minutes, o.total_seconds() / 60) if isinstance(o, dtm.timedelta) else False

    def __ne__(self, o):
        return core.neg(self == o)

    def __bool__(self):
        return bool(core.neg(core.sym_eq(self.minutes, 0)))

    __hash__ = None


def offset_of(tz):
    tz = force(tz)
    if tz is None:
        return None
    if isinstance(tz, Zone):
        return tz.off
    if type(tz).__name__ in ("timezone", "tzutc", "tzoffset"):
        m = tz.utcoffset(None).total_seconds() / 60
        if m == int(m):
            return int(m)
    raise Unsupported("time zone")


def offset_text(off):
    if isinstance(off, int):
        neg, a = off < 0, z3.IntVal(abs(off))
    else:
        neg = ctx().branch(off.e < 0)
        a = -off.e if neg else off.e
    return ["-" if neg else "+", make([Dig(z3.simplify(a / 60), 2)]), ":", make([Dig(z3.simplify(a % 60), 2)])]


def new_date(*f):
    if not nums(f):
        raise Unsupported("date from other values")
    if not any(isinstance(force(x), SymInt) for x in f):
        return dtm.date(*f)
    if not ctx().branch(is_day(*f)):
        raise ValueError("day is out of range for month")
    return SDate(*f)


def new_stamp(*f, off=None):
    f = [*f, 0, 0, 0, 0][:7]
    if not nums(f):
        raise Unsupported("datetime from other values")
    if not ctx().branch(z3.And(is_day(*f[:3]), is_time(*f[3:]))):
        raise ValueError("day is out of range for month")
    return SStamp(*f, off=off)


@ext("datetime.date")
def _date(f, args, kw):
    return new_date(*[kw[k] if k in kw else args[i] for i, k in enumerate(("year", "month", "day"))])


@ext("datetime.datetime")
def _datetime(f, args, kw):
    kw = dict(kw)
    tz = kw.pop("tzinfo", args[7] if len(args) > 7 else None)
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    fs = [kw[k] if k in kw else (args[i] if i < len(args) else 0) for i, k in enumerate(names)]
    return new_stamp(*fs, off=offset_of(tz))


ISO = re.compile(r"(\d{4})-(\d{2})-(\d{2})(?:T(\d{2}):(\d{2})(?::(\d{2})(?:\.(\d{1,6}))?)?(Z|[+-]\d{2}:\d{2})?)?\Z")
DANGLING = re.compile(r"\d{4}-(\d{2}-)?\Z")


class ParserError(ValueError):
    pass


class Arrow:
    _vf_symbolic = True

    def __init__(self, s):
        self.datetime = s

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in ("naive", "year", "month", "day", "hour", "minute", "second", "microsecond"):
            return getattr(self.datetime, name) if name != "naive" else SStamp(*self.datetime.f)
        if name == "date":
            return self.datetime.date
        raise Unsupported(f"Arrow.{name}")


def read_iso(text):
    """Fields of an ISO text, "reject" or None when nothing is assumed."""
    s = text.skeleton()
    if DANGLING.match(s):
        return "reject"
    m = ISO.match(s)
    if not m:
        return None
    g = [text.slice(*m.span(i)) if m.start(i) >= 0 else None for i in range(1, 9)]
    f = [stubs.s_int(x) if x is not None else 0 for x in g[:6]]
    us = 0
    if g[6] is not None:
        n = m.end(7) - m.start(7)
        us = wrap_num(num_expr(stubs.s_int(g[6])) * 10 ** (6 - n))
    off = 0
    if g[7] is not None and m[8] != "Z":
        h, mi = stubs.s_int(text.slice(m.start(8) + 1, m.start(8) + 3)), stubs.s_int(text.slice(m.start(8) + 4, m.end(8)))
        if not ctx().branch(z3.And(num_expr(h) < 24, num_expr(mi) < 60)):
            return None
        off = wrap_num((num_expr(h) * 60 + num_expr(mi)) * (-1 if m[8][0] == "-" else 1))
    if not ctx().branch(is_time(*f[3:6], us)):
        return None
    if not ctx().branch(is_day(*f[:3])):
        return "reject"
    return SStamp(*f, us, off=off)


@ext("arrow.api.get")
def _arrow(f, args, kw):
    text = force(args[0])
    if not isinstance(text, DStr) or len(args) != 1 or kw:
        raise Unsupported("arrow.get")
    r = read_iso(text)
    if isinstance(r, SStamp):
        return Arrow(r)
    if r == "reject":
        raise ParserError("not a date")
    c = ctx()
    k = c.choose("arrow", 3)
    if k == 1:
        raise ParserError("not a date")
    if k == 2:
        raise OverflowError("date value out of range")
    c.taint("unspecified date text")
    return Arrow(SStamp(*[c_int(f"arrow.{i}") for i in range(7)], off=c_int("arrow.off")))


def c_int(n):
    return SymInt(ctx().fresh(n, INT))


# -- arbitrary dates for the specifications


def date(S, name):
    assumed()
    y, m, d = S.int(f"{name}.y", 1, 9999), S.int(f"{name}.m", 1, 12), S.int(f"{name}.d", 1, 31)
    ctx().add(is_day(y, m, d))
    return SDate(y, m, d)


def stamp(S, name, aware=True):
    b = date(S, name)
    t = (S.int(f"{name}.H", 0, 23), S.int(f"{name}.M", 0, 59), S.int(f"{name}.S", 0, 59), S.int(f"{name}.us", 0, 999999))
    return SStamp(*b.f, *t, off=S.int(f"{name}.off", -1439, 1439) if aware else None)
