"""Model of the ElementTree interface used by fastkml.

Stands in for lxml / xml.etree while a contract is verified symbolically.  The
assumed contract of the library: SubElement and append add a child at the end,
find returns the first child with the tag, findall all of them in order,
get/set read and write attributes, fromstring(tostring(e)) is an equal tree.
"""
from __future__ import annotations

import z3

from . import core, seq
from .core import STR, Lazy, Sym, SymStr, Term, Unsupported, ctx, force, sym_eq, conj
from .seq import SList, Star, SymSeq, entries_of, viter


class Element:
    """Open elements are only partly known: ``known`` lists the tags (or
    attribute names) whose presence is described; asking for others stops the
    proof attempt."""

    def __init__(self, tag, attrib=None, nsmap=None, text=None, children=(), known=None, known_attrs=None, **extra):
        self._tag = tag
        self._text = text
        self.attrs = dict(attrib or {})
        self.attrs.update(extra)
        self.nsmap_ = nsmap
        self.kids = SList(children, loc="xml:children")
        self.known = known
        self.known_attrs = known_attrs
        self.log = []
        self.frozen = False

    def _vf_depth(self):
        return self.kids._depth

    # -- attributes
    @property
    def tag(self):
        return self._tag

    @tag.setter
    def tag(self, v):
        self._w()
        self._tag = v

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, v):
        self._w()
        c = ctx()
        if c is not None and len(c.generic) > self.kids._depth:
            raise Unsupported("text assigned to an outer element inside a loop")
        self._text = v

    @property
    def tail(self):
        return None

    @property
    def attrib(self):
        return self.attrs

    def _w(self):
        if self.frozen:
            ctx().events.append(("mutated", self))

    def set(self, k, v):
        self._w()
        c = ctx()
        if c is not None and len(c.generic) > self.kids._depth:
            raise Unsupported("attribute set on an outer element inside a loop")
        v = force(v)
        if not isinstance(v, (str, SymStr)):
            raise TypeError(f"Argument must be bytes or unicode, got '{core.kind_of(v).__name__}'")
        if isinstance(k, Sym):
            self._symset(k, v)
            return
        self.attrs[k] = v

    def _symset(self, k, v):
        for x in self.attrs:
            if bool(sym_eq(x, k)):
                self.attrs[x] = v
                return
        raise Unsupported("attribute with a symbolic name")

    def get(self, k, default=None):
        k = force(k)
        if isinstance(k, Sym):
            for x in list(self.attrs):
                if bool(sym_eq(x, k)):
                    return self.attrs[x]
            if self.known_attrs is not None:
                for x in self.known_attrs:
                    if bool(sym_eq(x, k)):
                        return default
                raise Unsupported("attribute of an open element")
            return default
        if k in self.attrs:
            return self.attrs[k]
        if self.known_attrs is not None and k not in self.known_attrs:
            raise Unsupported(f"attribute {k} of an open element")
        return default

    # -- children
    def append(self, child):
        self._w()
        child = force(child)
        if not isinstance(child, Element):
            raise TypeError("Argument 'element' has incorrect type")
        self.kids.append(child)

    def extend(self, children):
        self._w()
        for e in seq.entries_of(force(children)) if seq.raw_entries_ok(force(children)) else ():
            if not isinstance(e, (Element, Star)):
                raise TypeError("Argument 'element' has incorrect type")
        self.kids.extend(children)

    def insert(self, index, child):
        self._w()
        child = force(child)
        if not isinstance(child, Element):
            raise TypeError("Argument 'element' has incorrect type")
        self.kids.insert(index, child)

    def remove(self, child):
        raise Unsupported("element removed")

    def _match(self, child, tag):
        ct = child.tag
        if isinstance(ct, str) and isinstance(tag, str):
            return ct == tag
        return bool(sym_eq(ct, tag))

    def _ask(self, tag):
        self.log.append(tag)
        if self.known is not None:
            for k in self.known:
                r = sym_eq(k, tag)
                if r is True or (r is not False and bool(r)):
                    return
            raise Unsupported(f"child {tag!r} of an open element")

    def find(self, tag, namespaces=None):
        if namespaces is not None or _is_path(tag):
            raise Unsupported("path expression")
        self._ask(tag)
        for x in self.kids.raw():
            if isinstance(x, Star):
                if _excluded(x, tag):
                    continue
                if not x.entries and x.src is None:
                    continue
                raise Unsupported("first of an unknown number of children")
            if self._match(x, tag):
                return x
        return None

    def findall(self, tag, namespaces=None):
        if namespaces is not None or _is_path(tag):
            raise Unsupported("path expression")
        self._ask(tag)
        out = SList(loc="xml:findall")
        kids = SList(loc="xml:kids")
        for x in self.kids.raw():
            if not (isinstance(x, Star) and _excluded(x, tag)):
                list.append(kids, x)
        for child in viter(kids, "xml:findall"):
            if self._match(child, tag):
                out.append(child)
        return out

    def iterfind(self, tag, namespaces=None):
        return viter(self.findall(tag))

    def findtext(self, tag, default=None):
        e = self.find(tag)
        if e is None:
            return default
        return "" if e.text is None else e.text

    def __iter__(self):
        if self.known is not None:
            raise Unsupported("children of an open element")
        return viter(self.kids, "xml:iter")

    def __len__(self):
        if self.known is not None:
            raise Unsupported("number of children of an open element")
        return len(self.kids)

    def __bool__(self):
        # ElementTree: an element without children is false
        if self.known is not None:
            raise Unsupported("truth value of an open element")
        return bool(self.kids)

    def iter(self, *a):
        raise Unsupported("tree iteration")

    def xpath(self, *a):
        raise Unsupported("xpath")

    def getroot(self):
        return self

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def __repr__(self):
        return f"<el {self._tag!r}>"

    def __getattr__(self, name):
        if name.startswith("__") or name == "vf_obj":
            raise AttributeError(name)
        raise Unsupported(f"Element.{name}")

    # -- structural equality used by specifications
    def _vf_eq(self, o):
        return tree_eq(self, o)


def _excluded(star, tag):
    """No child this entry stands for can have the tag."""
    if not isinstance(tag, str):
        return False
    tags = getattr(star.src, "tags", None)
    if tags is not None:
        return tag not in tags and all(isinstance(e, Element) and e.tag in tags for e in star.entries)
    if star.frame is None:
        return False
    # children made by a loop: the tags it made on any path (explore() runs
    # the paths again until no path adds another tag)
    c = ctx()
    key = ("tags", star.frame.loc, seq.src_key(star.src))
    seen, ruled_out = c.opts.setdefault("tags", {}).setdefault(key, (set(), set()))
    for e in _elements(star.entries):
        if e is None:
            return False
        if e.tag not in seen:
            seen.add(e.tag)
            if e.tag in ruled_out:
                c.new_touched = True
    if tag in seen:
        return False
    ruled_out.add(tag)
    return True


def _elements(entries):
    for e in entries:
        if isinstance(e, Star):
            yield from _elements(e.entries)
        else:
            yield e if isinstance(e, Element) and isinstance(e.tag, str) else None


def _is_path(tag):
    """ElementPath syntax is only understood for plain qualified names."""
    if isinstance(tag, str):
        t = tag
        if t.startswith("{"):
            t = t.rsplit("}", 1)[-1]
        return any(ch in t for ch in "/*[@") or t in (".", "..")
    return False


def tree_eq(a, b):
    if a is b:
        return True
    if not isinstance(b, Element):
        return False
    if a.known is not None or b.known is not None:
        return False
    rs = [sym_eq(a.tag, b.tag)]
    if set(a.attrs) != set(b.attrs):
        return False
    for k in a.attrs:
        rs.append(core.deep_eq(a.attrs[k], b.attrs[k]))
    rs.append(text_eq(a.text, b.text))
    if any(r is False for r in rs):
        return False
    rs.append(seq.entries_eq(a.kids.raw(), b.kids.raw()))
    return conj(*rs)


def text_eq(a, b):
    a, b = force(a), force(b)
    if a is None or b is None:
        return a is b
    return core.deep_eq(a, b)


class EtreeModel:
    """The object installed as config.etree."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"etree.{name}")

    LXML_VERSION = (5, 0, 0, 0)
    __name__ = "vf.etree"

    class ParseError(Exception):
        pass

    class XPathEvalError(Exception):
        pass

    @staticmethod
    def Element(tag, attrib=None, nsmap=None, **extra):
        return Element(tag, attrib, nsmap, **extra)

    @staticmethod
    def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
        e = Element(tag, attrib, nsmap, **extra)
        parent.append(e)
        return e

    @staticmethod
    def tostring(element, encoding=None, method="xml", **kw):
        return XmlText(element, encoding, kw)

    @staticmethod
    def fromstring(text, parser=None, **kw):
        text = force(text)
        if isinstance(text, XmlText):
            return text.element
        raise Unsupported("fromstring of a text")

    @staticmethod
    def parse(source, parser=None, **kw):
        source = force(source)
        if isinstance(source, XmlFile):
            ctx().events.append(("parse", source))
            return source.tree
        raise Unsupported("parse of a file")

    @staticmethod
    def XMLParser(**kw):
        return ("parser", tuple(sorted(kw.items())))

    @staticmethod
    def register_namespace(prefix, uri):
        ctx().events.append(("register_namespace", prefix, uri)) if ctx() else None


class XmlText(SymStr):
    """Serialised element."""

    __slots__ = ("element", "encoding", "kw", "payload")

    def __init__(self, element, encoding, kw):
        super().__init__(ctx().fresh("xml", STR))
        ctx().add(self.e != z3.StringVal(""))
        self.element, self.encoding, self.kw = element, encoding, kw

    def decode(self, *a):
        return self

    def encode(self, *a, **k):
        return self

    def __eq__(self, o):
        if isinstance(o, XmlText):
            if o.element is self.element and o.encoding == self.encoding and o.kw == self.kw:
                return True
        return super().__eq__(o)

    __hash__ = None


class XmlFile:
    _vf_symbolic = True

    def __init__(self, tree):
        self.tree = tree


etree = EtreeModel()
