"""The harness interface.  A contract is written once and used three ways:

* symbolic  - inputs are proxies, every path is explored, each ``check`` is an
              obligation discharged by the SMT solver;
* replay    - inputs come from a solver model, the unmodified library runs;
* pool      - inputs are drawn from finite pools (bounded stand-in).
"""
from __future__ import annotations

import hashlib
import math
import random
import time
import io
import pickle
import traceback


def twin(x):
    """An equal object sharing nothing with ``x`` but immutable geometries."""
    shared, out = [], io.BytesIO()

    class P(pickle.Pickler):
        def persistent_id(self, o):
            if type(o).__module__.startswith("pygeoif"):
                shared.append(o)
                return len(shared) - 1
            return None

    class U(pickle.Unpickler):
        def persistent_load(self, k):
            return shared[k]

    try:
        P(out).dump(x)
    except (pickle.PicklingError, AttributeError, TypeError):
        return x
    return U(io.BytesIO(out.getvalue())).load()

_PROPS = [f"C{i:02d}" for i in range(1, 21)]


class Skip(Exception):
    """The drawn inputs do not satisfy the precondition."""


class Violated(Exception):
    pass


class Harness:
    def __init__(self, fn, name, props, functions, params=None, mode="both", bounded=False, pool=200, unroll=2,
                 weight=1, contracts=(), cross=12, budget=25, backend=None, finding=None, why=""):
        self.fn, self.name, self.props = fn, name, tuple(props)
        self.functions = tuple(functions)
        self.params = params
        self.mode = mode            # both / concrete / symbolic
        self.pool = pool
        self.unroll = unroll
        self.weight = weight
        self.contracts = contracts
        self.cross = cross          # concrete cross-check runs of a symbolic contract
        self.budget = budget
        self.backend = backend
        self.finding = finding
        self.why = why


REGISTRY: list[Harness] = []


def harness(name, props, functions=(), **kw):
    def deco(fn):
        ps = props.split() if isinstance(props, str) else props
        fs = functions.split() if isinstance(functions, str) else functions
        REGISTRY.append(Harness(fn, name, ps, fs, **kw))
        return fn
    return deco


# ---------------------------------------------------------------------------


class Base:
    symbolic = False

    def __init__(self, harness, prop):
        self.h = harness
        self.prop = prop
        self.params = harness.params

    def date_fields(self, d):
        """("date", y, m, d) or ("datetime", y, m, d, H, M, S, us, offset in minutes)"""
        import datetime as dtm
        if isinstance(d, dtm.datetime):
            off = d.utcoffset()
            return ("datetime", d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond,
                    None if off is None else off.total_seconds() / 60)
        if isinstance(d, dtm.date):
            return ("date", d.year, d.month, d.day)
        return ("neither", d)

    def wants(self, props):
        if isinstance(props, str):
            props = props.split()
        return self.prop is None or self.prop in props


class Concrete(Base):
    """Runs on the real library; values from a model or from pools."""

    def __init__(self, harness, prop, source):
        super().__init__(harness, prop)
        self.src = source
        self.record = {}
        self.checks = 0
        self.covered = set()
        self.counts = {}

    # -- inputs
    def _n(self, name):
        k = self.counts.get(name, 0)
        self.counts[name] = k + 1
        return name if k == 0 else f"{name}'{k}"

    def _rec(self, name, v):
        self.record[name] = v
        return v

    def bool(self, name):
        return self._rec(name, self.src.bool(name))

    def int(self, name, lo=None, hi=None):
        return self._rec(name, self.src.int(name, lo, hi))

    def real(self, name):
        return self._rec(name, self.src.real(name))

    def text(self, name, clean=False, nonempty=False, token=False):
        """Any XML-legal text; clean: no surrounding whitespace."""
        v = self.src.text(name, clean, nonempty, token)
        return self._rec(name, v)

    def enum(self, name, E):
        return self._rec(name, self.src.choice(name, list(E)))

    def choice(self, name, options):
        options = list(options)
        i = self.src.index(name, len(options))
        self.record[name] = f"#{i}"
        return options[i]

    def opt(self, name, make):
        if self._rec(f"{name}?set", self.src.bool(f"{name}?set")):
            return make()
        return None

    lazy = opt

    def seq(self, name, make, minlen=0, group=None, pytype=list, tags=None, maxlen=None):
        n = self.src.length(name, minlen, group)
        if maxlen is not None:
            n = min(n, maxlen)
        self.record[f"{name}?len"] = n
        out = [make(f"{name}[{k}]") for k in self.src.element_keys(name, n)]
        if len(out) > 1 and self.choice(f"{name}?twin", [0, 0, 0, 1]):
            # equal elements that are not the same object
            out[-1] = twin(out[0])
        return pytype(out)

    # -- logic
    def assume(self, c):
        if not c:
            raise Skip

    def conj(self, *a):
        return all(a)

    def disj(self, *a):
        return any(a)

    def neg(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return conc_eq(a, b)

    def check(self, props, label, cond, detail=None):
        if not self.wants(props):
            return
        self.checks += 1
        if not bool(cond):
            try:
                d = detail() if callable(detail) else detail
            except Exception as e:  # noqa: BLE001
                d = f"(no details: {e!r})"
            raise Violated(label, d)

    def cover(self, label):
        self.covered.add(label)

    def note(self, *a):
        pass

    # -- running code
    def run(self, fn, *a, **k):
        """Call; returns (result, exception)."""
        try:
            return fn(*a, **k), None
        except Exception as e:  # noqa: BLE001
            return None, e

    # -- dates
    def date(self, name):
        import calendar
        import datetime as dtm
        y, m = self.int(f"{name}.y", 1, 9999), self.int(f"{name}.m", 1, 12)
        return dtm.date(y, m, min(self.int(f"{name}.d", 1, 31), calendar.monthrange(y, m)[1]))

    def stamp(self, name, aware=True):
        import datetime as dtm
        d = self.date(name)
        t = (self.int(f"{name}.H", 0, 23), self.int(f"{name}.M", 0, 59), self.int(f"{name}.S", 0, 59), self.int(f"{name}.us", 0, 999999))
        tz = dtm.timezone(dtm.timedelta(minutes=self.int(f"{name}.off", -1439, 1439))) if aware else None
        return dtm.datetime(d.year, d.month, d.day, *t, tzinfo=tz)

    def digits(self, n, w):
        return str(n).zfill(w)

    def cat(self, *parts):
        return "".join(parts)

    def is_day(self, y, m, d):
        import datetime as dtm
        try:
            dtm.date(y, m, d)
        except ValueError:
            return False
        return True

    def floordiv(self, a, b):
        return a // b

    def mod(self, a, b):
        return a % b

    def dates(self):
        pass

    # -- XML
    def el(self, tag, text=None, attrs=None, children=(), known=None, known_attrs=None):
        from fastkml import config
        e = config.etree.Element(tag)
        for k, v in (attrs or {}).items():
            e.set(k, v)
        if text is not None:
            e.text = text
        for c in children:
            e.append(c)
        if known is not None:
            # other content is allowed: add some
            self.src.distract(self, e, known, known_attrs)
        return e

    def contract(self, name, fn):
        pass

    def strip(self, s):
        return s.strip()

    def lower(self, s):
        return s.lower()

    def float_ok(self, s):
        try:
            return math.isfinite(float(s)) or True
        except ValueError:
            return False

    def float_of(self, s):
        return float(s)

    def int_ok(self, s):
        try:
            int(s)
        except ValueError:
            return False
        return True

    def int_of(self, s):
        return int(s)

    def str(self, v):
        return str(v)

    def fmt(self, v, precision):
        return f"{v:.{precision}f}"

    def ne(self, a, b):
        return not self.eq(a, b)

    def is_none(self, v):
        return v is None

    def truth(self, v):
        return bool(v)

    def yes(self, v):
        return bool(v)

    def pyeq(self, a, b):
        return bool(a == b)

    # -- structured inputs
    def kdt(self, name):
        from spec import gen
        return gen.kdt(self, name)

    def geo(self, name, kind, dim):
        from spec import a_geometry
        return a_geometry.cshape(self, name, kind, dim)

    def child(self, name, q, mode="default", solid=False):
        from spec import gen
        return gen.obj(self, name, q, mode, depth=1,
                       solid=solid or self.src.bool(f"{name}?solid") or self.src.bool(f"{name}?solid2"))

    def child_in(self, name, q, ns):
        """A nested object written in namespace ns."""
        from spec import gen
        o = gen.obj(self, name, q, "default", depth=0, solid=True)
        o.ns = ns
        return o

    def same_child(self, got, c, ns):
        return got is not None and type(got) is type(c) and got.ns == ns

    def length(self, l):
        return len(l)

    def regrouped(self, o):
        from spec import oracle
        return oracle.regroup(o)

    def chain(self, a, b):
        return list(a) + list(b)

    def show(self, got, want):
        return {"got": conc_text(got), "expected": conc_text(want)}

    def child_el(self, o, precision=None, verbosity="normal"):
        from spec import oracle
        return oracle.write(self, o, precision, verbosity)

    def nonempty(self, o):
        from spec import base
        return base.nonempty(o)

    def snapshot(self, *os):
        return (os, [deep_state(o) for o in os])

    def same(self, snap):
        return [deep_state(o) for o in snap[0]] == snap[1]

    def parsed_dt(self, text):
        """(accepted, value) of a date text by the reference reader."""
        from spec import dates
        return dates.read(text)

    def repr(self, v):
        return repr(v)

    def eval(self, text, env):
        return eval(text, env)  # noqa: S307

    def map(self, f, s):
        return [f(x) for x in s]

    def filter(self, p, s):
        return [x for x in s if p(x)]

    def collect(self, fn, /, *a, **k):
        return self.run(lambda: list(fn(*a, **k)))

    def iterator(self, s):
        return iter(s)

    def force(self, v):
        return v

    def join(self, sep, s):
        return sep.join(s)

    def loose_join(self, name, kind, s, pad=False):
        """The pieces with any separators of a kind between them."""
        r = self.src.r
        gaps = ["", "", " ", "  ", "    "] if kind == "comma" else [" ", " ", "\n", "\t", "  ", " \n  ", "\n\n", "\t \n"]
        out = ""
        for k, x in enumerate(s):
            if k:
                out += ("," if kind == "comma" else "") + r.choice(gaps)
            out += x
        if pad:
            out = r.choice(["", *gaps]) + out + r.choice(["", *gaps])
        return self._rec(name, out)

    def number_text(self, name, good=True):
        """Any text without whitespace and commas that denotes a number (or not)."""
        r = self.src.r
        if not good:
            return self._rec(name, r.choice(["x", "1;2", "--1", "2e", "(1", "1.2.3", "1:5", "0x1", "é", "1-", "e5", "1,5"[:1] + "_", "N", "."]))
        x = self.src.real(name + "#value")
        forms = [repr(x), repr(x)]
        if x == int(x) and abs(x) < 1e12:
            forms += [str(int(x)), f"{x:.1f}", f"{int(x)}.", f"+{int(x)}" if x >= 0 else str(int(x)), f"{int(x)}.000"]
        forms += [f"{x:.17e}", f"{x:.17E}"]
        return self._rec(name, r.choice(forms))

    def side(self, s):
        return _Null()

    def text_of(self, e):
        return e.text

    def kids(self, e):
        return list(e)

    def attrs_of(self, e):
        return dict(e.attrib)

    def tree_eq(self, a, b):
        return conc_tree(a) == conc_tree(b)

    def freeze(self, e):
        self._frozen = getattr(self, "_frozen", [])
        self._frozen.append((e, conc_tree(e)))

    def unchanged(self):
        return all(conc_tree(e) == t for e, t in getattr(self, "_frozen", []))


def deep_state(o, seen=None):
    """Value of everything reachable from an object, identities of containers included."""
    seen = set() if seen is None else seen
    if o is None or isinstance(o, (str, int, float, bool, bytes, type)):
        return repr(o)
    if id(o) in seen:
        return ("seen", type(o).__name__)
    seen.add(id(o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o), tuple(deep_state(x, seen) for x in o))
    if isinstance(o, dict):
        return ("dict", id(o), tuple((k, deep_state(v, seen)) for k, v in o.items()))
    if hasattr(o, "tag") and hasattr(o, "attrib"):
        return ("el", conc_tree(o))
    if type(o).__module__.startswith("fastkml") and hasattr(o, "__dict__"):
        return (type(o).__name__, id(o), tuple((k, deep_state(v, seen)) for k, v in vars(o).items()))
    return repr(o)


def conc_text(e):
    from fastkml import config
    try:
        return config.etree.tostring(e, encoding="unicode")
    except Exception as x:  # noqa: BLE001
        return repr(x)


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def conc_tree(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text or "", tuple(conc_tree(c) for c in e))


def conc_eq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(conc_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(conc_eq(a[k], b[k]) for k in a)
    return bool(a == b)


# ---------------------------------------------------------------------------
# sources of concrete values


class PoolSource:
    def __init__(self, seed, pools, systematic=0):
        self.r = random.Random(seed)
        self.p = pools
        self.memo = {}

    def bool(self, name):
        return self.r.random() < 0.6 if name.endswith("?set") else self.r.random() < 0.5

    def int(self, name, lo=None, hi=None):
        r = self.r
        for _ in range(50):
            v = r.choice(self.p["ints"]) if r.random() < 0.8 else r.randint(-10**6, 10**6)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        return r.randint(lo if lo is not None else -5, hi if hi is not None else (lo or 0) + 5)

    def real(self, name):
        r = self.r
        k = r.random()
        if k < 0.5:
            return float(r.choice(self.p["reals"]))
        if k < 0.8:
            return round(r.uniform(-180, 180), r.randint(0, 8))
        return r.uniform(-1, 1) * 10.0 ** r.randint(-12, 15)

    def text(self, name, clean=False, nonempty=False, token=False):
        r = self.r
        for _ in range(100):
            k = r.random()
            if k < 0.7:
                v = r.choice(self.p["texts"])
            else:
                v = "".join(r.choice(self.p["chars"]) for _ in range(r.randint(0, 12)))
            if clean or token:
                v = v.strip()
            if token:
                v = "".join(v.split()).replace(",", "")
            if nonempty and not v:
                continue
            return v
        return "x"

    def choice(self, name, options):
        return self.r.choice(options)

    def index(self, name, n):
        return self.r.randrange(n)

    def length(self, name, minlen, group):
        if group is not None and group in self.memo:
            return self.memo[group]
        n = max(minlen, self.r.choice([0, 1, 1, 2, 2, 3, 4, self.r.choice(self.p["lengths"])]))
        if group is not None:
            self.memo[group] = n
        return n

    def element_keys(self, name, n):
        return list(range(n))

    def distract(self, S, e, known, known_attrs):
        from fastkml import config
        if self.r.random() < 0.7:
            for _ in range(self.r.randint(1, 3)):
                tag = self.r.choice(["{urn:other}x", "zzz", "{urn:other}name", "{http://example.com/q}Point"])
                if tag in known:
                    continue
                x = config.etree.Element(tag)
                x.text = self.r.choice(["1", "text", None])
                if self.r.random() < 0.5 and hasattr(e, "insert"):
                    e.insert(0, x)
                else:
                    e.append(x)


    def literal(self, name, row, S):
        """A text likely to be near the row's syntax."""
        r = self.r
        k = row.kind
        if r.random() < 0.3:
            v = self.text(name)
        elif k == "bool":
            v = r.choice(["1", "0", "true", "false", "True", "FALSE", "2", "0.0", "1.5", "yes", "no", "tru", "nan", "-1", "01", "TRUE "])
        elif k in ("int", "aint"):
            v = r.choice([str(self.int(name)), "1.0", "1e3", "x1", "1 2", "", "+3", "0x1f", "--1"])
        elif k in ("float", "afloat"):
            v = r.choice([repr(self.real(name)), str(self.int(name)), "1,5", "1.5.2", "x", ".5", "5.", "1e", "-.5e-3"])
        elif k in ("enum", "aenum"):
            m = r.choice([t for _, t in row.members])
            v = r.choice([m, m, m.upper(), m.lower(), m.capitalize(), m[:-1], m + "x", " " + m, m.swapcase()])
        elif k == "dt":
            v = r.choice(["2000", "1999-12", "2001-02-28", "2001-02-30", "2000-13", "2000-01-01T10:20:30Z", "2000-01-01T10:20:30+05:30",
                          "2000-01-01T25:00:00", "0000", "2000-", "20000101", "next week", "9999-12-31T24:00:00", "2000-01-01T10:20:30.123456-01:00",
                          f"{r.randint(0, 9999):04d}-{r.randint(0, 13):02d}-{r.randint(0, 32):02d}"])
        else:
            v = self.text(name)
        if r.random() < 0.3 and not row.is_attr:
            v = r.choice([" ", "\n", "\t  "]) + v + r.choice(["", " ", "\n"])
        S.record[name] = v
        return v


class ModelSource:
    """Values of a countermodel."""

    def __init__(self, values, seed=0, pools=None):
        self.v = values
        self.fallback = PoolSource(seed, pools) if pools else None
        self.r = self.fallback.r if self.fallback else None
        self.group = {}

    def _get(self, name, dflt):
        if name in self.v:
            return self.v[name]
        return dflt

    def bool(self, name):
        return bool(self._get(name, False))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def real(self, name):
        return float(self._get(name, 0.0))

    def text(self, name, clean=False, nonempty=False, token=False):
        return self._get(name, "x" if nonempty or token else "")

    def choice(self, name, options):
        i = self._get(name, 0)
        return options[i % len(options)]

    def index(self, name, n):
        return self._get(name, 0) % n

    def length(self, name, minlen, group):
        if f"{name}?count" in self.v:
            return self.v[f"{name}?count"]
        if isinstance(self.v.get(f"{name}?len"), int):
            return max(minlen, min(12, self.v[f"{name}?len"]))
        ne = self._get(f"{name}?nonempty", minlen > 0)
        if not ne:
            return max(0, minlen)
        return 1 + sum(1 for k in (0, -1) if any(x.startswith(f"{name}[{k}]") for x in self.v))

    def element_keys(self, name, n):
        if f"{name}?count" in self.v:
            return list(range(n))
        if n == 0:
            return []
        keys = []
        if any(x.startswith(f"{name}[0]") for x in self.v):
            keys.append(0)
        keys.append("*")
        if any(x.startswith(f"{name}[-1]") for x in self.v):
            keys.append(-1)
        while len(keys) < n:
            keys.append("*")
        return keys[:n] if len(keys) > n else keys

    def distract(self, S, e, known, known_attrs):
        pass

    def literal(self, name, row, S):
        v = self.text(name)
        S.record[name] = v
        return v
