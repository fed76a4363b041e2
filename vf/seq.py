"""Sequences of unknown length and the loop rule.

A loop over a ``SymSeq`` is executed once for an arbitrary element.  What the
iteration appends to lists that existed before the loop is recorded as a
``Star`` entry: *for every element of the source, these entries, in order*.
Two such lists are equal when they are equal for the arbitrary element.  The
rule needs independent iterations; anything that would carry state from one
iteration to the next raises ``Unsupported`` (the harness is then re-run with
all lengths up to a stated bound instead).
"""
from __future__ import annotations

import z3

from . import core
from .core import (BOOL, INT, STR, Lazy, Sym, SymBool, SymInt, SymStr, Term,
                   Unsupported, conj, ctx, deep_eq, force, uf, wrap_bool)


class Frame:
    __slots__ = ("src", "loc", "state", "dirty", "base_dirty")

    def __init__(self, src, loc):
        self.src, self.loc = src, loc
        self.state = "open"     # open / closed / aborted
        self.dirty = False      # the outcome may differ from element to element


class Star:
    __slots__ = ("src", "entries", "frame")

    def __init__(self, src, entries, frame):
        self.src, self.entries, self.frame = src, entries, frame

    def __repr__(self):
        return f"*{self.src}{self.entries!r}"


class SymSeq:
    """Arbitrary finite sequence; ``gen`` is its arbitrary element."""

    _vf_symbolic = True

    tags = None   # all tags its members can be written with, when known

    varied = False

    def __init__(self, name, make, minlen=0, pytype=list, maxlen=None):
        self.name = name
        self.make = make
        self.minlen = minlen
        self.maxlen = maxlen
        self.pytype = pytype
        self._gen = None
        self._idx = {}

    @property
    def gen(self):
        if self._gen is None:
            n = ctx().decisions
            self._gen = self.make(f"{self.name}[*]")
            self.varied = ctx().decisions != n
        return self._gen

    def nonempty(self):
        if self.minlen > 0:
            return True
        c = ctx()
        b = z3.Bool(f"{self.name}?nonempty")
        c.inputs.setdefault(f"{self.name}?nonempty", SymBool(b))
        return c.branch(b)

    def __bool__(self):
        return self.nonempty()

    def length(self):
        c = ctx()
        n = z3.Int(f"{self.name}?len")
        c.inputs.setdefault(f"{self.name}?len", SymInt(n))
        b = z3.BoolVal(True) if self.minlen > 0 else z3.Bool(f"{self.name}?nonempty")
        c.add(z3.And(n >= self.minlen, (n > 0) == b))
        if self.maxlen is not None:
            c.add(n <= self.maxlen)
        return SymInt(n)

    def __len__(self):
        raise Unsupported("len of an unbounded sequence through C")

    def __iter__(self):
        return viter(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return self
            raise Unsupported("slice of an unbounded sequence")
        k = force(k)
        if not isinstance(k, int):
            raise Unsupported("symbolic index")
        if k not in (0, -1):
            raise Unsupported("index into an unbounded sequence")
        if not self.nonempty():
            raise IndexError("list index out of range")
        if k not in self._idx:
            self._idx[k] = self.make(f"{self.name}[{k}]")
        return self._idx[k]

    def __eq__(self, o):
        return seq_eq(self, o, strict=False)

    def __ne__(self, o):
        return core.neg(self.__eq__(o))

    __hash__ = None

    def __repr__(self):
        return f"<seq {self.name}>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(self.pytype, name):
            raise Unsupported(f"{self.pytype.__name__}.{name} on an unbounded sequence")
        raise AttributeError(name)


class DerivedSeq(SymSeq):
    """A sequence whose arbitrary element is computed (zip, reversed, split)."""

    def __init__(self, name, gen_fn, base_nonempty, pytype=list, first_fn=None):
        super().__init__(name, lambda n: gen_fn(), 0, pytype)
        self._ne = base_nonempty

    def nonempty(self):
        return bool(self._ne())

    def length(self):
        raise Unsupported("len of a derived sequence")

    def __getitem__(self, k):
        raise Unsupported("index into a derived sequence")


class SymIter:
    """An iterator over an arbitrary sequence (what a generator by contract gives)."""

    _vf_symbolic = True

    def __init__(self, s):
        self.s, self.used = s, False

    def _take(self):
        if self.used:
            raise Unsupported("iterator used twice")
        self.used = True
        return self.s

    def first(self, *d):
        s = self._take()
        if s.nonempty():
            return s[0]
        if d:
            return d[0]
        raise StopIteration

    def __iter__(self):
        return viter(self)


def _touched_key(lst, frame):
    return (lst._loc, frame.loc)


class SList(list):
    """A list built by the code under verification; may hold Star entries."""

    _vf_symbolic = False
    pytype = list

    def __init__(self, it=(), loc=None):
        list.__init__(self)
        c = ctx()
        self._loc = loc
        self._depth = len(c.generic) if c else 0
        if c is not None:
            c.lists.append(self)
        it = force(it)
        for x in (entries_of(it) if isinstance(it, (SList, STuple, SymSeq)) else it):
            list.append(self, x)

    # -- building
    def _target(self):
        c = ctx()
        if c is None or len(c.generic) <= self._depth:
            return self
        cur = self
        for fr in c.generic[self._depth:]:
            key = _touched_key(self, fr)
            if key not in c.touched:
                c.touched.add(key)
                c.new_touched = True
            raw = cur if isinstance(cur, list) else cur
            last = list.__getitem__(raw, -1) if list.__len__(raw) else None
            if not (isinstance(last, Star) and last.frame is fr):
                last = Star(fr.src, [], fr)
                list.append(raw, last)
            cur = last.entries
        return cur

    def append(self, x):
        list.append(self._target(), x)

    def extend(self, it):
        it = force(it)
        if raw_entries_ok(it):
            tgt = self._target() if list.__len__(entries_of(it)) or True else self
            for e in entries_of(it):
                list.append(tgt, e)
            return
        for x in viter(it):
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def insert(self, i, x):
        c = ctx()
        if c is not None and len(c.generic) > self._depth:
            raise Unsupported("insert in a loop")
        if i == 0 or not self.has_star():
            list.insert(self, i, x)
            return
        raise Unsupported("insert into a list of unknown length")

    def _mutate(self, what):
        c = ctx()
        if c is not None and len(c.generic) > self._depth:
            raise Unsupported(f"{what} in a loop")
        if self.has_star():
            raise Unsupported(f"{what} on a list of unknown length")

    def pop(self, i=-1):
        self._mutate("pop")
        return list.pop(self, i)

    def remove(self, x):
        self._mutate("remove")
        return list.remove(self, x)

    def sort(self, **k):
        self._mutate("sort")
        return list.sort(self, **k)

    def reverse(self):
        self._mutate("reverse")
        return list.reverse(self)

    def clear(self):
        c = ctx()
        if c is not None and len(c.generic) > self._depth:
            raise Unsupported("clear in a loop")
        return list.clear(self)

    def __setitem__(self, k, v):
        self._mutate("item assignment")
        return list.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._mutate("item deletion")
        return list.__delitem__(self, k)

    # -- reading
    def has_star(self):
        return any(isinstance(x, Star) for x in list.__iter__(self))

    def _read(self):
        c = ctx()
        for x in list.__iter__(self):
            if isinstance(x, Star):
                if x.frame is not None and x.frame.state == "open":
                    raise Unsupported("accumulator read inside its loop")
                if x.frame is not None and x.frame.state == "aborted":
                    raise Unsupported("accumulator of a loop left early")
        if c is not None:
            for fr in c.generic[self._depth:]:
                if _touched_key(self, fr) in c.touched:
                    raise Unsupported("accumulator read inside its loop")

    def raw(self):
        self._read()
        return list(list.__iter__(self))

    def __iter__(self):
        self._read()
        if not self.has_star():
            return list.__iter__(self)
        return viter(self)

    def __len__(self):
        self._read()
        if self.has_star():
            raise Unsupported("len of a list of unknown length through C")
        return list.__len__(self)

    def length(self):
        self._read()
        if not self.has_star():
            return list.__len__(self)
        if list.__len__(self) == 1:
            s = list.__getitem__(self, 0)
            if len(s.entries) == 1 and not isinstance(s.entries[0], Star) and isinstance(s.src, SymSeq):
                # exactly one entry per element on this path only
                pass
        raise Unsupported("len of a list of unknown length")

    def nonempty(self):
        self._read()
        raw = [x for x in list.__iter__(self) if not _surely_not(x)]
        if not raw:
            return False
        if any(_surely(x) for x in raw):
            return True
        c = ctx()
        names = ",".join(str(x.src) + "@" + str(x.frame.loc if x.frame else "") for x in raw)
        k = (c.side, tuple(str(x.src) for x in raw))
        n = c.star_ord.setdefault(k, [])
        ident = id(self)
        if ident not in n:
            n.append(ident)
        var = z3.Bool(f"others?{'|'.join(k[1])}#{n.index(ident)}")
        c.keep.append(self)
        return c.branch(var)

    def __bool__(self):
        return self.nonempty()

    def __getitem__(self, k):
        self._read()
        if isinstance(k, slice):
            if not self.has_star() or k == slice(None):
                return SList(list.__getitem__(self, k), loc=self._loc)
            raise Unsupported("slice of a list of unknown length")
        k = force(k)
        if isinstance(k, int) and not self.has_star():
            return list.__getitem__(self, k)
        if isinstance(k, int) and list.__len__(self):
            x = list.__getitem__(self, k)
            if k in (0, -1) and not isinstance(x, Star):
                return x
        raise Unsupported("index into a list of unknown length")

    def __contains__(self, x):
        from .stubs import contains
        return bool(contains(self, x))

    def __add__(self, o):
        r = SList(loc=self._loc)
        r.extend(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SList(loc=self._loc)
        r.extend(o)
        r.extend(self)
        return r

    def copy(self):
        r = SList(loc=self._loc)
        r.extend(self)
        return r

    def __eq__(self, o):
        return seq_eq(self, o, strict=False)

    def __ne__(self, o):
        return core.neg(self.__eq__(o))

    __hash__ = None

    def __reversed__(self):
        if self.has_star():
            return iter(reversed_seq(self))
        return iter(list.__getitem__(self, slice(None, None, -1)))


class STuple:
    """A tuple with entries of unknown number."""

    _vf_symbolic = True
    pytype = tuple

    def __init__(self, slist):
        self.l = slist

    def raw(self):
        return self.l.raw()

    def nonempty(self):
        return self.l.nonempty()

    def __bool__(self):
        return self.l.nonempty()

    def length(self):
        return self.l.length()

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return viter(self.l)

    def __getitem__(self, k):
        r = self.l[k]
        return STuple(r) if isinstance(k, slice) else r

    def __eq__(self, o):
        return seq_eq(self, o, strict=False)

    def __ne__(self, o):
        return core.neg(self.__eq__(o))

    __hash__ = None

    def __add__(self, o):
        return STuple(self.l + o)

    def __repr__(self):
        return f"<tuple {list(list.__iter__(self.l))!r}>"


class SDict(dict):
    """A dict made by the code under verification (no mutation across a loop)."""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        c = ctx()
        self._depth = len(c.generic) if c else 0

    def _w(self):
        c = ctx()
        if c is not None and len(c.generic) > self._depth:
            raise Unsupported("dict changed inside a loop of unknown length")

    def __setitem__(self, k, v):
        self._w()
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        self._w()
        dict.update(self, *a, **k)

    def setdefault(self, k, d=None):
        self._w()
        return dict.setdefault(self, k, d)

    def pop(self, *a):
        self._w()
        return dict.pop(self, *a)

    def __delitem__(self, k):
        self._w()
        dict.__delitem__(self, k)


def _surely(x):
    """An entry (or Star) that contributes at least one element on this path."""
    if isinstance(x, Star):
        return any(_surely(y) for y in x.entries)
    return True


def raw_entries_ok(it):
    return isinstance(it, (SList, STuple, SymSeq))


def entries_of(v):
    """Entries (values and Stars) of a sequence value, deciding emptiness."""
    v = force(v)
    if isinstance(v, (SList, STuple)):
        return v.raw()
    if isinstance(v, SymSeq):
        if not v.nonempty():
            return []
        return [Star(v, [v.gen], None)]
    if isinstance(v, (list, tuple)):
        return list(v)
    return None


def generic(src, loc, values, base=None):
    c = ctx()
    fr = Frame(src, loc)
    fr.base_dirty = base is not None and base.dirty
    c.generic.append(fr)
    lists = list(c.lists)
    rec = []
    c.consults.append(rec)
    try:
        try:
            for v in values:
                yield v
        finally:
            for i in range(len(c.consults) - 1, -1, -1):
                if c.consults[i] is rec:
                    del c.consults[i]
                    break
            fr.dirty = bool(rec) or fr.base_dirty or getattr(src, "varied", True) or isinstance(src, DerivedSeq)
    except GeneratorExit:
        if fr.state == "open":
            fr.state = "aborted"
            if c.generic and fr in c.generic:
                del c.generic[c.generic.index(fr):]
        raise
    except BaseException:
        if fr.state == "open":
            fr.state = "aborted"
            if fr in c.generic:
                del c.generic[c.generic.index(fr):]
        raise
    else:
        if fr.state == "open":
            fr.state = "closed"
            if fr in c.generic:
                del c.generic[c.generic.index(fr):]
        # lists that other paths of this loop append to
        for l in lists:
            if l._depth <= len(c.generic) and (l._loc, loc) in c.touched:
                raw = list(list.__iter__(l))
                if not any(isinstance(x, Star) and x.frame is fr for x in raw) and not _deep_has(raw, fr):
                    tgt = l._target() if len(c.generic) > l._depth else l
                    list.append(tgt, Star(src, [], fr))


def _deep_has(entries, fr):
    for x in entries:
        if isinstance(x, Star) and (x.frame is fr or _deep_has(x.entries, fr)):
            return True
    return False


def others(kind, src):
    """Does some other element of the source decide an any/all/in test?"""
    c = ctx()
    k = (c.side, kind, str(src_key(src)))
    n = c.star_ord.get(k, 0)
    c.star_ord[k] = n + 1
    name = f"others?{kind}|{src_key(src)}#{n}"
    c.inputs.setdefault(name, SymBool(z3.Bool(name)))
    return c.branch(z3.Bool(name))


def quantify(kind, it, test, loc):
    """any / all / membership over a possibly unbounded iterable."""
    c = ctx()
    d = len(c.generic)
    hit = kind != "all"
    seen = []
    rec = []
    c.consults.append(rec)
    try:
        for x in viter(it, loc):
            if len(c.generic) > d and c.generic[d] not in seen:
                seen.append(c.generic[d])
            if bool(test(x)) is hit:
                # the loop is left here
                for fr in c.generic[d:]:
                    fr.state = "aborted"
                del c.generic[d:]
                return hit
    finally:
        c.consults.pop()
    done = []
    for fr in seen:
        if uniform(fr.src, rec) and not fr.base_dirty:
            continue
        if any(fr.src is s for s in done):
            continue
        done.append(fr.src)
        if others(kind, fr.src):
            return hit
    return not hit


def plain(v):
    """A value without structure that could have been decided earlier."""
    if isinstance(v, (tuple, list)) and not isinstance(v, SList):
        return all(plain(x) for x in v)
    if isinstance(v, SymSeq) and not isinstance(v, DerivedSeq):
        return plain(v.gen) and not v.varied
    if isinstance(v, Term) and v.head.startswith("pygeoif.") and v.head != "pygeoif.any":
        return all(plain(x) for x in v.args)
    return v is None or isinstance(v, (core.SymReal, SymInt, SymStr, SymBool, str, int, float)) or getattr(type(v), "_vf_plain", False)


def uniform(src, rec):
    """The test came out as it did for every element: nothing about this
    element was decided when it was made, and every decision of the test
    follows from what holds for all elements."""
    if isinstance(src, DerivedSeq) or not isinstance(src, SymSeq):
        return False
    if not plain(src.gen) or src.varied:
        return False
    if any(e is None for e in rec):
        return False
    if not rec:
        return True
    c = ctx()
    s = z3.Solver()
    s.set("timeout", 3000)
    for e in c.defs:
        s.add(e)
    own = f"{src.name}?nonempty"
    for e in rec:
        if str(e) == own:
            continue
        if s.check(z3.Not(e)) != z3.unsat:
            return False
    return True


def viter(v, loc=None, carried=None):
    """Iterate over a possibly symbolic value."""
    v = force(v)
    if isinstance(v, SymIter):
        v = v._take()
    if isinstance(v, SymSeq):
        if carried:
            raise Unsupported(f"loop carries state: {carried}")
        return _iter_sym(v, loc)
    if isinstance(v, (SList, STuple)):
        l = v.l if isinstance(v, STuple) else v
        l._read()
        if not l.has_star():
            return list.__iter__(l)
        if carried:
            raise Unsupported(f"loop carries state: {carried}")
        return _iter_entries(l.raw(), loc)
    if isinstance(v, SymStr):
        raise Unsupported("iteration over a symbolic text")
    if isinstance(v, (Sym, Term)):
        if isinstance(v, Term) and "__iter__" in v.attrs:
            return viter(v.attrs["__iter__"], loc, carried)
        if isinstance(v, Term):
            if v.pytype is not object and not hasattr(v.pytype, "__iter__"):
                raise TypeError(f"'{v.pytype.__name__}' object is not iterable")
            raise Unsupported(f"iteration over {v.head}")
        raise TypeError(f"'{v.pytype.__name__}' object is not iterable")
    return iter(v)


def _iter_sym(v, loc):
    if not v.nonempty():
        return
    yield from generic(v, loc, [v.gen])


def _iter_entries(entries, loc):
    for x in entries:
        if isinstance(x, Star):
            # a Star without entries contributes nothing for the arbitrary element
            yield from generic(x.src, loc, _flat(x.entries, loc), x.frame)
        else:
            yield x


def _flat(entries, loc):
    return _iter_entries(entries, loc)


def undepth(depth):
    """An exception was caught: loops entered since are left."""
    c = ctx()
    if c is None:
        return
    for fr in c.generic[depth:]:
        fr.state = "aborted"
    del c.generic[depth:]


def seq_kind(v):
    if isinstance(v, (SymSeq, STuple)):
        return v.pytype
    if isinstance(v, SList):
        return list
    return type(v)


def seq_eq(a, b, strict=True):
    a, b = force(a), force(b)
    if a is b:
        return True
    ok = (SList, STuple, SymSeq, list, tuple)
    if not isinstance(a, ok) or not isinstance(b, ok):
        return False
    if seq_kind(a) is not seq_kind(b):
        return False
    return entries_eq(entries_of(a), entries_of(b))


def _surely_not(x):
    """A repetition of nothing, alike for all elements: nothing was decided about the arbitrary one."""
    if not isinstance(x, Star) or x.frame is None or x.frame.state != "closed" or x.frame.dirty:
        return False
    if isinstance(x.src, DerivedSeq) or not isinstance(x.src, SymSeq) or x.src.varied or not plain(x.src.gen):
        return False
    return all(_surely_not(e) for e in x.entries)


def _void(x):
    """A repetition of nothing."""
    return isinstance(x, Star) and all(_void(e) for e in x.entries)


def entries_eq(ea, eb):
    ea = [x for x in ea if not (_void(x))]
    eb = [x for x in eb if not (_void(x))]
    if len(ea) != len(eb):
        if any(isinstance(x, Star) for x in ea + eb):
            # lengths are unknown: differing shapes differ for some length
            pass
        return False
    rs = []
    for x, y in zip(ea, eb):
        if isinstance(x, Star) or isinstance(y, Star):
            if not (isinstance(x, Star) and isinstance(y, Star)):
                return False
            if src_key(x.src) != src_key(y.src):
                return False
            rs.append(entries_eq(x.entries, y.entries))
        else:
            rs.append(deep_eq(x, y))
        if rs[-1] is False:
            return False
    return conj(*rs) if rs else True


def src_key(s):
    return getattr(s, "name", None) or id(s)


def reversed_seq(v):
    v = force(v)
    if isinstance(v, SymSeq):
        return DerivedSeq(f"reversed({v.name})", lambda: v.gen, v.nonempty)
    es = entries_of(v)
    out = SList(loc="reversed")
    for x in reversed(es):
        if isinstance(x, Star):
            d = DerivedSeq(f"reversed({src_key(x.src)})", None, lambda: True)
            list.append(out, Star(d, list(reversed(x.entries)), x.frame))
        else:
            list.append(out, x)
    return out


def zip_longest(*seqs, fillvalue=None):
    seqs = [force(s) for s in seqs]
    es = [entries_of(s) for s in seqs]
    if any(e is None for e in es):
        raise Unsupported("zip of an unknown iterable")
    if not any(isinstance(x, Star) for e in es for x in e):
        import itertools
        return SList(itertools.zip_longest(*es, fillvalue=fillvalue), loc="zip")
    # each operand is empty or one Star with one entry per element
    ops = []
    for e in es:
        e = [x for x in e if not (_void(x))]
        if not e:
            ops.append(None)
        elif len(e) == 1 and isinstance(e[0], Star) and len(e[0].entries) == 1 and not isinstance(e[0].entries[0], Star):
            ops.append(e[0])
        else:
            raise Unsupported("zip of partly known sequences")
    live = [o for o in ops if o is not None]
    name = "zip(" + ",".join(str(src_key(o.src)) if o else "-" for o in ops) + ")"
    srcs = {src_key(o.src) for o in live}

    def gen():
        c = ctx()
        if len(srcs) == 1:
            return tuple(o.entries[0] if o else fillvalue for o in ops)
        groups = {getattr(o.src, "lengroup", src_key(o.src)) for o in live}
        if len(groups) == 1:
            return tuple(o.entries[0] if o else fillvalue for o in ops)
        present = {}
        for g in sorted(map(str, groups)):
            b = z3.Bool(f"{name}?{g}")
            c.inputs.setdefault(f"{name}?{g}", SymBool(b))
            present[g] = b
        c.add(z3.Or(*present.values()))
        vals = []
        for o in ops:
            if o is None:
                vals.append(fillvalue)
                continue
            g = str(getattr(o.src, "lengroup", src_key(o.src)))
            vals.append(o.entries[0] if c.branch(present[g]) else fillvalue)
        return tuple(vals)

    if len(srcs) == 1:
        d = live[0].src
        out = SList(loc="zip")
        list.append(out, Star(d, [tuple(o.entries[0] if o else fillvalue for o in ops)], None))
        return out
    return DerivedSeq(name, gen, lambda: True)


def zip_shortest(*seqs):
    seqs = [force(s) for s in seqs]
    es = [entries_of(s) for s in seqs]
    if any(e is None for e in es):
        raise Unsupported("zip of an unknown iterable")
    if not any(isinstance(x, Star) for e in es for x in e):
        return SList(zip(*es), loc="zip")
    if any(not e for e in es):
        return SList(loc="zip")
    groups = set()
    for e in es:
        if not (len(e) == 1 and isinstance(e[0], Star) and len(e[0].entries) == 1 and not isinstance(e[0].entries[0], Star)):
            raise Unsupported("zip of partly known sequences")
        groups.add(getattr(e[0].src, "lengroup", src_key(e[0].src)))
    if len(groups) != 1:
        raise Unsupported("zip of sequences of different length")
    out = SList(loc="zip")
    list.append(out, Star(es[0][0].src, [tuple(e[0].entries[0] for e in es)], None))
    return out


# ---------------------------------------------------------------------------
# texts made of pieces


class Gap:
    """Between two pieces of a text: any text of a kind, a different one at each place.

    white: one or more whitespace characters; comma: a comma and any number of blanks"""

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, Gap) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)

    def strip(self):
        return "," if self.kind == "comma" else ""

    def samples(self):
        if self.kind == "comma":
            return ["," + " " * k for k in range(12)]
        import itertools
        return ["".join(w) for n in (1, 2, 3) for w in itertools.product(" \t\n\r", repeat=n)] + [ch * 9 for ch in " \t\n"]


class JoinStr(SymStr):
    """sep.join(entries) with entries of unknown number."""

    __slots__ = ("sep", "entries", "tok", "pad")

    def __init__(self, sep, entries, tok=False, pad=False):
        c = ctx()
        super().__init__(c.fresh("join", STR))
        self.sep, self.entries = sep, entries
        self.tok = tok   # entries are non-empty and free of whitespace and commas
        self.pad = pad   # surrounded by any whitespace
        self.clean = tok and sep.strip() in ("", ",") and not pad
        if any(_surely(x) for x in entries) and tok:
            c.add(self.e != z3.StringVal(""))

    def join_eq(self, o):
        o = force(o)
        if o is self:
            return True
        if isinstance(o, JoinStr) and o.sep == self.sep and not isinstance(o.sep, Gap) and not o.pad and not self.pad:
            r = entries_eq(self.entries, o.entries)
            if r is True:
                return True
            if self.tok and o.tok:
                return r
            ctx().taint("equality of joined texts")
            return r
        return wrap_bool(self.e == core.str_expr(o))

    __eq__ = join_eq

    __hash__ = None

    def strip(self, chars=None):
        if chars is None and self.clean:
            return self
        if chars is None and self.tok and self.pad:
            k = ("unpadded", id(self))
            m = ctx().memo
            if k not in m:
                m[k] = (JoinStr(self.sep, self.entries, True), self)
            return m[k][0]
        return super().strip(chars)

    def replace(self, a, b, *rest):
        if not rest and isinstance(a, str) and isinstance(b, str) and self.tok and a and all(ch.isspace() or ch == "," for ch in a):
            from .stubs import change_separators
            return change_separators(self, lambda w: w.replace(a, b), f"replace({a!r}, {b!r})")
        return super().replace(a, b, *rest)

    def loose(self):
        """Some comma may be followed by blanks."""
        return self.sep == Gap("comma") or any(isinstance(force(x), JoinStr) and force(x).loose() for x in _leaves(self.entries))


TOKEN_FNS = ("float_str", "int_str", "fixed")


def is_token(x):
    """Text known to be non-empty without whitespace or comma."""
    x = force(x)
    if isinstance(x, str):
        return x != "" and not any(ch.isspace() or ch == "," for ch in x)
    if isinstance(x, SymStr):
        if getattr(x, "clean", False) == "token":
            return True
    return False


def join(sep, it):
    from .core import wrap_str
    it = force(it)
    l = it if isinstance(it, (SList, STuple)) else collect(it, "join")
    raw = l.raw()
    if not any(isinstance(x, Star) for x in raw):
        vals = [force(x) for x in raw]
        for i, v in enumerate(vals):
            if not isinstance(v, (str, SymStr)):
                raise TypeError(f"sequence item {i}: expected str instance, {core.kind_of(v).__name__} found")
        if all(isinstance(v, str) for v in vals) and isinstance(sep, str):
            return sep.join(vals)
        if isinstance(sep, (str, Gap)) and vals:
            if len(vals) == 1:
                return vals[0]
            tok = all(is_token(v) or (isinstance(v, JoinStr) and v.tok and sep != v.sep) for v in vals)
            return JoinStr(sep, vals, tok)
        if not vals:
            return ""
        raise Unsupported("symbolic separator")
    if not isinstance(sep, (str, Gap)):
        raise Unsupported("symbolic separator")

    def toks(es):
        return all(toks(x.entries) if isinstance(x, Star)
                   else (is_token(x) or (isinstance(force(x), JoinStr) and force(x).tok)) for x in es)
    if not any(_surely(x) for x in raw):
        # other elements decide; keep symbolic
        return JoinStr(sep, raw, toks(raw))
    return JoinStr(sep, raw, toks(raw))


def collect(it, loc):
    """Consume an iterable into a tracked list."""
    l = SList(loc=loc)
    it = force(it)
    if isinstance(it, (SList, STuple, SymSeq)):
        l.extend(it)
        return l
    for x in viter(it, loc):
        l.append(x)
    return l


def _leaves(entries):
    for x in entries:
        if isinstance(x, Star):
            yield from _leaves(x.entries)
        else:
            yield x


def resep(text, change):
    """The text with every separator changed alike."""
    text = force(text)
    if not isinstance(text, JoinStr):
        return text
    new = change(text.sep)
    src = SList(loc="resep")
    for e in text.entries:
        list.append(src, e)
    l = SList(loc="resep")
    for x in viter(src, "resep"):
        l.append(resep(x, change))
    r = join(new, l)
    if text.pad:
        if not isinstance(r, JoinStr):
            raise Unsupported("padded text")
        r = JoinStr(r.sep, r.entries, r.tok, True)
    return r


def split_seq(s, sep):
    if isinstance(s, JoinStr) and s.tok:
        if sep is None and s.loose():
            raise Unsupported("split of a text with blanks after commas")
        if sep is not None and (s.pad or isinstance(s.sep, Gap)):
            raise Unsupported("split of a text with irregular separators")
        if sep is None and s.sep.strip() == "" and s.sep:
            r = SList(loc="split")
            for e in s.entries:
                list.append(r, e)
            return r
        if sep is not None and s.sep == sep:
            r = SList(loc="split")
            for e in s.entries:
                list.append(r, e)
            return r
        if sep is None and s.sep == ",":
            # one token
            r = SList(loc="split")
            list.append(r, s)
            return r
    if getattr(s, "clean", None) == "token":
        return SList([s], loc="split")
    c = ctx()
    key = ("split", s.e.sexpr(), sep)
    if key not in c.memo:
        base = s
        name = f"split({s.e.sexpr()},{sep!r})"

        def mk(n):
            t = SymStr(z3.Const(n, STR))
            if sep is None:
                t.clean = "token0"
                c.add(t.e != z3.StringVal(""))
            return t
        q = SymSeq(name, mk, 0 if sep is None else 1)
        if sep is None:
            # blank text <=> no token
            st = s.strip()
            b = z3.Bool(f"{name}?nonempty")
            c.add(b == (core.str_expr(st) != z3.StringVal("")))
        q.of = (base, sep)
        c.memo[key] = q
    return c.memo[key]
