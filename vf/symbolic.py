"""Symbolic mode of the harness interface."""
from __future__ import annotations

import time

import z3

from . import children, dates, files, geo  # noqa: F401  (register the models of libraries)
from . import core, harness, seq, stubs, xmlmodel
from .core import (BOOL, INT, REAL, STR, Ctx, Lazy, Obligation, SymBool, SymInt,
                   SymReal, SymStr, Term, Unsupported, ctx, deep_eq, force)
from .seq import SList, Star, STuple, SymSeq


class Symbolic(harness.Base):
    symbolic = True

    def __init__(self, h, prop, opts):
        super().__init__(h, prop)
        self.opts = opts
        self.unroll = opts.get("unroll")

    # -- inputs
    def _in(self, name, v):
        ctx().inputs[name] = v
        return v

    def bool(self, name):
        return self._in(name, SymBool(z3.Bool(name)))

    def int(self, name, lo=None, hi=None):
        v = SymInt(z3.Int(name))
        c = ctx()
        if lo is not None:
            c.add(v.e >= lo)
        if hi is not None:
            c.add(v.e <= hi)
        return self._in(name, v)

    def real(self, name):
        return self._in(name, SymReal(z3.Real(name)))

    def text(self, name, clean=False, nonempty=False, token=False):
        v = SymStr(z3.Const(name, STR))
        c = ctx()
        if clean or token:
            s = c.app("strip", v.e, STR)
            c.add(s == v.e)
            v.clean = "token" if token else True
        if nonempty or token:
            c.add(v.e != z3.StringVal(""))
        return self._in(name, v)

    def enum(self, name, E):
        opts = list(E)
        i = ctx().choose(name, len(opts))
        self._in(name, i)
        return opts[i]

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self._in(name, 0)
            return options[0]
        i = ctx().choose(name, len(options))
        self._in(name, i)
        return options[i]

    def opt(self, name, make):
        return make() if bool(self._in(f"{name}?set", SymBool(z3.Bool(f"{name}?set")))) else None

    def lazy(self, name, make):
        ctx().inputs.setdefault(f"{name}?set", SymBool(z3.Bool(f"{name}?set")))
        return Lazy(name, make)

    def seq(self, name, make, minlen=0, group=None, pytype=list, tags=None, maxlen=None):
        c = ctx()
        if self.unroll is not None:
            g = group or name
            if ("len", g) not in c.memo:
                k = c.choose(f"{g}?count", self.unroll + 1)
                if k < minlen or (maxlen is not None and k > maxlen):
                    raise core.Infeasible
                c.memo[("len", g)] = k
            k = c.memo[("len", g)]
            c.inputs[f"{name}?count"] = k
            items = [make(f"{name}[{i}]") for i in range(k)]
            return SList(items, loc=name) if pytype is list else pytype(items)
        if group is not None:
            ne = ("ne", group)
            if ne not in c.memo:
                c.memo[ne] = z3.Bool(f"{group}?grp")
        s = SymSeq(name, make, minlen, pytype, maxlen)
        s.tags = tags
        if group is not None:
            s.lengroup = group
            c.add(z3.Bool(f"{name}?nonempty") == c.memo[("ne", group)])
        c.inputs.setdefault(f"{name}?nonempty", SymBool(z3.Bool(f"{name}?nonempty")) if minlen == 0 else True)
        return s

    # -- logic
    def assume(self, x):
        ctx().assume(x)

    conj = staticmethod(core.conj)
    disj = staticmethod(core.disj)
    neg = staticmethod(core.neg)
    implies = staticmethod(core.implies)

    def iff(self, a, b):
        return core.wrap_bool(core.bexpr(a) == core.bexpr(b))

    def eq(self, a, b):
        return deep_eq(a, b)

    def ne(self, a, b):
        return core.neg(deep_eq(a, b))

    def is_none(self, v):
        return force(v) is None

    def truth(self, v):
        return stubs.s_bool(v)

    def yes(self, v):
        return bool(stubs.s_bool(v))

    def pyeq(self, a, b):
        return core.sym_eq(a, b)

    # -- structured inputs
    def kdt(self, name):
        from . import children
        return children.kdt(name)

    def date(self, name):
        from . import dates
        return dates.date(self, name)

    def stamp(self, name, aware=True):
        from . import dates
        return dates.stamp(self, name, aware)

    def date_fields(self, d):
        """("date", y, m, d) or ("datetime", y, m, d, H, M, S, us, offset in minutes)"""
        from . import dates
        import datetime as dtm
        d = force(d)
        if isinstance(d, dates.SStamp):
            return ("datetime", *d.f, d.off)
        if isinstance(d, dates.SDate):
            return ("date", *d.f)
        return super().date_fields(d)

    def digits(self, n, w):
        from . import dates
        return dates.digits(n, w)

    def cat(self, *parts):
        return stubs.concat(parts)

    def is_day(self, y, m, d):
        from . import dates
        return core.wrap_bool(dates.is_day(y, m, d))

    def floordiv(self, a, b):
        return core.wrap_num(core.num_expr(a) / b)

    def mod(self, a, b):
        return core.wrap_num(core.num_expr(a) % b)

    def dates(self):
        from . import dates
        dates.assumed()

    def geo(self, name, kind, dim):
        from . import geo
        return geo.make(self, name, kind, dim)

    def child(self, name, q, mode="default", solid=False):
        from . import children
        return children.child(name, q, mode, solid)

    def child_in(self, name, q, ns):
        from . import children
        o = children.child(name, q, "default", True)
        o.__dict__["ns"] = ns
        return o

    def same_child(self, got, c, ns):
        return got is c

    def length(self, l):
        return stubs.s_len(l)

    def regrouped(self, o):
        return o

    def chain(self, a, b):
        l = SList(a, loc="spec:chain") if not isinstance(a, SList) else a
        return l + b

    def show(self, got, want):
        return None

    def child_el(self, o, precision=None, verbosity="normal"):
        from . import children
        return children.element_of(force(o), precision, verbosity)

    def nonempty(self, o):
        from spec import base
        return base.nonempty(o)

    def snapshot(self, *os):
        return [(o, shallow(o)) for o in os]

    def same(self, snap):
        return all(same_state(a, shallow(o)) for o, a in snap)

    def parsed_dt(self, text):
        from . import children
        return children.parsed(text)

    def check(self, props, label, cond, detail=None):
        if not self.wants(props):
            return
        c = ctx()
        if c.poison:
            raise Unsupported(c.poison)
        cond = core.lift(cond)
        if cond is True:
            c.obligations.append(Obligation(label, "proved", back="structural"))
            return
        e = z3.BoolVal(False) if cond is False else cond.e
        t = time.time()
        status, model, back = discharge(c, e)
        c.obligations.append(Obligation(label, status, model, None, back, time.time() - t))

    def cover(self, label):
        ctx().events.append(("cover", label))

    def note(self, *a):
        pass

    # -- running code
    def run(self, fn, *a, **k):
        c = ctx()
        d = len(c.generic)
        try:
            return stubs.do_call("harness", fn, a, k), None
        except Exception as e:  # noqa: BLE001
            seq.undepth(d)
            return None, e

    # -- XML
    def el(self, tag, text=None, attrs=None, children=(), known=None, known_attrs=None):
        return xmlmodel.Element(tag, attrs, text=text, children=children, known=known, known_attrs=known_attrs)

    def contract(self, name, fn):
        ctx().contracts[name] = fn

    def strip(self, s):
        return s.strip()

    def lower(self, s):
        return s.lower()

    def float_ok(self, s):
        return SymBool(ctx().app("float_ok", core.str_expr(s), BOOL))

    def float_of(self, s):
        return SymReal(ctx().app("float_of", core.str_expr(s), REAL))

    def int_ok(self, s):
        return SymBool(ctx().app("int_ok", core.str_expr(s), BOOL))

    def int_of(self, s):
        return SymInt(ctx().app("int_of", core.str_expr(s), INT))

    def str(self, v):
        return stubs.to_str(v)

    def fmt(self, v, precision):
        return stubs.fmt(v, -1, stubs.concat([".", stubs.fmt(precision, -1, ""), "f"]))

    def repr(self, v):
        r = type(v).__repr__(v)
        return r

    def eval(self, text, env):
        """Evaluate a representation: representations of values inside it stand
        for the values (eval(repr(v)) == v for built-in values; nested objects
        by the contract of their class)."""
        text = force(text)
        if isinstance(text, str):
            return eval(text, dict(env))  # noqa: S307
        parts = text.parts if isinstance(text, stubs.RStr) else None
        if parts is None:
            raise Unsupported("representation that is not a formatted text")
        env = dict(env)
        out = []
        for i, p in enumerate(parts):
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, stubs.ReprOf):
                env[f"_vf_{i}"] = p.value
                out.append(f" _vf_{i} ")
            elif isinstance(p, SymStr) and getattr(p, "clean", False) == "token":
                raise Unsupported("number in a representation")
            else:
                raise Unsupported("text without quotes in a representation")
        ctx().assumptions.add("eval(repr(v)) == v for built-in values (CPython)")
        return eval("".join(out), env)  # noqa: S307

    def map(self, f, s):
        l = SList(loc="spec:map")
        for x in seq.viter(s, "spec:map"):
            l.append(f(x))
        return l

    def filter(self, p, s):
        l = SList(loc="spec:filter")
        for x in seq.viter(s, "spec:filter"):
            if bool(stubs.s_bool(p(x))):
                l.append(x)
        return l

    def collect(self, fn, /, *a, **k):
        """All results of an iterator-valued call."""
        def go():
            l = SList(loc="spec:collect")
            for x in seq.viter(stubs.do_call("harness", fn, a, k), "spec:collect"):
                l.append(x)
            return l
        c = ctx()
        d = len(c.generic)
        try:
            return go(), None
        except Exception as e:  # noqa: BLE001
            seq.undepth(d)
            return None, e

    def iterator(self, s):
        return seq.SymIter(s) if isinstance(s, SymSeq) else iter(s)

    def force(self, v):
        return force(v)

    def join(self, sep, s):
        return seq.join(sep, s)

    def loose_join(self, name, kind, s, pad=False):
        """The pieces with any separators of a kind between them."""
        r = seq.join(seq.Gap(kind), s)
        if pad:
            if not isinstance(r, seq.JoinStr):
                r = seq.JoinStr(seq.Gap(kind), [r], True)
            r = seq.JoinStr(r.sep, r.entries, r.tok, True)
        return r

    def number_text(self, name, good=True):
        """Any text without whitespace and commas that denotes a number (or not)."""
        v = self.text(name, token=True)
        ok = core.ctx().app("float_ok", v.e, BOOL)
        core.ctx().add(ok if good else z3.Not(ok))
        return v

    def side(self, s):
        return _Side(s)

    def text_of(self, e):
        return e.text

    def kids(self, e):
        return e.kids

    def attrs_of(self, e):
        return e.attrs

    def tree_eq(self, a, b):
        return xmlmodel.tree_eq(a, b)

    def freeze(self, e):
        e.frozen = True

    def unchanged(self):
        return not any(ev[0] == "mutated" for ev in ctx().events)


class _Side:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = ctx().side
        ctx().side = self.s

    def __exit__(self, *a):
        if ctx() is not None:
            ctx().side = self.old
        return False


def discharge(c, goal):
    """Is ``goal`` implied by the path condition?  Countermodels are refined
    with the true values of the text functions on the texts they mention."""
    c.solver.set("timeout", c.opts.get("check_timeout", 8000))
    try:
        for _ in range(12):
            r = c._check(z3.Not(goal))
            if r == z3.unsat:
                if c.opts.get("second_solver"):
                    return second(c, goal)
                return "proved", None, "z3"
            if r == z3.unknown:
                return "unknown", None, "z3"
            m = c.solver.model()
            if not refine(c, m):
                return "refuted", model_values(c, m), "z3"
        return "refuted", model_values(c, m), "z3"
    finally:
        c.solver.set("timeout", c.opts.get("branch_timeout", 3000))


def second(c, goal):
    """Re-discharge with cvc5."""
    import subprocess
    s = z3.Solver()
    for e in c.pc:
        s.add(e)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--strings-exp", "--tlimit=8000", "-"], input=txt,
                           capture_output=True, text=True, timeout=20)
        out = p.stdout.strip().splitlines()
    except (OSError, subprocess.SubprocessError):
        out = []
    c.solver_time += time.time() - t
    if out and out[0] == "unsat":
        return "proved", None, "z3+cvc5"
    if out and out[0] == "sat":
        return "unknown", None, "z3/cvc5 disagree"
    return "proved", None, "z3"


def refine(c, m):
    new = False
    for fname, arg, app in list(c.uf_apps):
        v = m.eval(arg, model_completion=True)
        if not z3.is_string_value(v):
            continue
        s = core.decode_str(v)
        nat = core.NATIVE[fname](s)
        got = m.eval(app, model_completion=True)
        if nat is None:
            continue
        bad = False
        if isinstance(nat, bool):
            bad = z3.is_true(got) != nat
        elif isinstance(nat, str):
            bad = not z3.is_string_value(got) or core.decode_str(got) != nat
        elif isinstance(nat, int):
            bad = not z3.is_int_value(got) or got.as_long() != nat
        else:
            if nat != nat or nat in (float("inf"), float("-inf")):
                continue
            from fractions import Fraction
            bad = not z3.is_rational_value(got) or Fraction(got.numerator_as_long(), got.denominator_as_long()) != Fraction(nat)
        if bad:
            c._ground(fname, arg, app, s)
            new = True
    return new


def model_values(c, m):
    out = {}
    for name, v in c.inputs.items():
        if isinstance(v, (int, str, bool, float)) or v is None:
            out[name] = v
            continue
        if isinstance(v, Lazy):
            continue
        e = m.eval(v.e, model_completion=True)
        if isinstance(v, SymBool):
            out[name] = z3.is_true(e)
        elif isinstance(v, SymInt):
            out[name] = e.as_long()
        elif isinstance(v, SymReal):
            try:
                out[name] = float(e.numerator_as_long()) / float(e.denominator_as_long())
            except (AttributeError, OverflowError):
                out[name] = 0.0
        elif isinstance(v, SymStr):
            out[name] = core.decode_str(e) if z3.is_string_value(e) else ""
    return out


def current_values(c):
    """Input values on the current path (for structural refutations)."""
    if c._check() == z3.sat:
        return model_values(c, c.solver.model())
    return None


def run_symbolic(h, prop, opts):
    """All paths of one harness; returns a result dict."""
    t0 = time.time()
    opts = dict(opts)
    opts["deadline"] = t0 + opts.get("budget", 25)

    def run(c):
        S = Symbolic(h, prop, opts)
        h.fn(S)

    done = core.explore(run, opts)
    res = {
        "name": h.name, "paths": sum(1 for c in done if not c.infeasible), "proved": 0, "refuted": [], "unknown": [],
        "errors": [c.error for c in done if c.error], "solver_time": sum(c.solver_time for c in done),
        "queries": sum(c.queries for c in done), "wall": time.time() - t0,
        "assumptions": sorted({a for c in done for a in c.assumptions}),
        "contracts": sorted({a for c in done for a in c.used_contracts}),
        "back": {}, "bounded": opts.get("unroll"), "labels": {},
        "covers": sorted({e[1] for c in done for e in c.events if e[0] == "cover"}),
    }
    for c in done:
        if c.infeasible:
            continue
        for o in c.obligations:
            res["labels"].setdefault(o.label, 0)
            res["labels"][o.label] += 1
            if o.status == "proved":
                res["proved"] += 1
                res["back"][o.back] = res["back"].get(o.back, 0) + 1
            elif o.status == "refuted":
                res["refuted"].append({"label": o.label, "model": o.model, "tainted": c.tainted, "why": c.taint_reason,
                                       "pc": [str(p)[:200] for p in c.pc[-12:]]})
            else:
                res["unknown"].append(o.label)
    return res


def shallow(o):
    """State of an object: its attributes, and the entries of its lists and dicts."""
    o = force(o)
    if isinstance(o, xmlmodel.Element):
        return ()
    if isinstance(o, dict):
        return tuple(("key", k) for k in o) + tuple(("val", v) for v in o.values())
    if isinstance(o, list):
        return tuple(("item", x) for x in list.__iter__(o) if not seq._void(x))
    if isinstance(o, tuple):
        return tuple(("item", x) for x in o)
    if not hasattr(o, "__dict__"):
        return ()
    out = []
    for k, v in vars(o).items():
        out.append((k, v))
        if isinstance(v, (list, dict)) and not isinstance(v, (SymSeq,)):
            out.append((k + "[]", shallow(v)))
    return tuple(out)


def same_state(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a is b or (len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b)))
    return a is b or (isinstance(a, (str, int, float)) and type(a) is type(b) and a == b)
