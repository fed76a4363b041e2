"""Assumed contracts of files, zip archives and the schema validator.

A path's state is absent, a text file (encoding and chunks written since it was
truncated) or a zip archive (its members).  Opening for writing truncates,
"a" keeps what is there, "x" refuses an existing file; ZipFile writes text as
UTF-8.  Whether a document conforms to a schema is an arbitrary truth value per
(schema, document); assert_ raises AssertionError exactly when it does not.
"""
from __future__ import annotations

import codecs
import pathlib

import z3

from . import core, stubs, xmlmodel
from .core import BOOL, STR, SymBool, SymStr, Unsupported, ctx, force
from .seq import SymSeq


class Bytes:
    """A text encoded."""

    _vf_symbolic = True

    def __init__(self, text, encoding):
        self.text, self.encoding = text, encoding


def norm(encoding):
    return "locale" if encoding is None else codecs.lookup(encoding).name


def encode(text, encoding="utf-8", errors="strict"):
    return Bytes(text, norm(encoding))


class VPath:
    """A path to a file that may or may not exist."""

    _vf_symbolic = True

    def __init__(self, name, state=None):
        self.p = pathlib.PurePosixPath("/somewhere") / name
        self.state = state          # None | ("text", encoding, chunks) | ("zip", members)
        self.log = []

    suffix = property(lambda s: s.p.suffix)
    suffixes = property(lambda s: s.p.suffixes)
    name = property(lambda s: s.p.name)
    stem = property(lambda s: s.p.stem)
    parent = property(lambda s: s.p.parent)
    parts = property(lambda s: s.p.parts)

    def __str__(self):
        return str(self.p)

    def exists(self):
        return self.state is not None

    is_file = exists

    def unlink(self, missing_ok=False):
        if self.state is None and not missing_ok:
            raise FileNotFoundError(str(self))
        self.state = None

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return VFile(self, mode, encoding, errors, newline)

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with VFile(self, "w", encoding, errors, newline) as f:
            f.write(data)

    def write_bytes(self, data):
        with VFile(self, "wb", None, None, None) as f:
            f.write(data)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"Path.{name}")


class VFile:
    _vf_symbolic = True

    def __init__(self, path, mode, encoding, errors, newline):
        kind = set(mode) - set("bt")
        self.path, self.binary = path, "b" in mode
        if errors not in (None, "strict") or newline not in (None, "", "\n"):
            raise Unsupported("file options")
        if not kind <= {"w"} and not kind <= {"a"} and not kind <= {"x"}:
            raise Unsupported(f"file mode {mode}")
        if "x" in kind and path.state is not None:
            raise FileExistsError(str(path))
        if "a" not in kind or path.state is None:
            path.state = ("text", None, [])
        self.enc = None if self.binary else norm(encoding)
        self.closed = False

    def write(self, data):
        data = force(data)
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.path.state[0] != "text":
            raise Unsupported("appending to an archive")
        if self.binary:
            if isinstance(data, Bytes):
                self._put(data.text, data.encoding)
                return
            raise Unsupported("bytes")
        if not isinstance(data, (str, SymStr)):
            raise TypeError("write() argument must be str")
        self._put(data, self.enc)

    def _put(self, text, enc):
        _, old, chunks = self.path.state
        if old is not None and old != enc:
            enc = "mixed"
        self.path.state = ("text", enc, [*chunks, text])

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"file.{name}")


class VZip:
    _vf_symbolic = True

    def __init__(self, path, mode="r", compression=0, *a, **k):
        if mode not in ("w", "a", "x"):
            raise Unsupported(f"ZipFile mode {mode}")
        if mode == "x" and path.state is not None:
            raise FileExistsError(str(path))
        if mode == "w" or path.state is None:
            path.state = ("zip", [])
        if path.state[0] != "zip":
            raise Unsupported("archive after other contents")
        self.path = path

    def writestr(self, name, data, compress_type=None, compresslevel=None):
        name = getattr(name, "filename", name)
        data = force(data)
        if isinstance(data, Bytes):
            item = (name, data.encoding, data.text)
        elif isinstance(data, (str, SymStr)):
            item = (name, "utf-8", data)
        else:
            raise Unsupported("zip data")
        self.path.state = ("zip", [*self.path.state[1], item])

    def namelist(self):
        return [m[0] for m in self.path.state[1]]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"ZipFile.{name}")


@stubs.ext("zipfile.ZipFile")
def _zipfile(f, args, kw):
    if not isinstance(args[0], VPath):
        raise Unsupported("ZipFile")
    ctx().assumptions.add("zipfile.ZipFile: mode w replaces the file, writestr adds one member, texts as UTF-8")
    return VZip(*args, **kw)


@stubs.ext("_io.open")
def _open(f, args, kw):
    if not isinstance(args[0], VPath):
        raise Unsupported("open")
    return VFile(args[0], *_open_args(*args[1:], **kw))


def _open_args(mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return mode, encoding, errors, newline


@stubs.ext("pathlib.Path")
def _path(f, args, kw):
    if len(args) == 1 and isinstance(args[0], VPath):
        return args[0]
    raise Unsupported("Path")


# -- schema


def conforms(schema, doc):
    """Does the document conform to the schema?  An arbitrary truth value."""
    c = ctx()
    root = doc.root if isinstance(doc, Tree) else doc
    n = f"conforms:{schema}:{getattr(root, 'vf_name', id(root))}"
    v = SymBool(z3.Bool(n))
    c.inputs.setdefault(n, v)
    return v


class Tree:
    """A parsed document."""

    _vf_symbolic = True

    def __init__(self, root=None, source=None):
        self.root, self.source = root, source

    def getroot(self):
        if self.root is None:
            raise Unsupported("root of a schema file")
        return self.root

    def xpath(self, path, **k):
        return found(path)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"ElementTree.{name}")


def found(path):
    """Any result of a path expression."""
    k = ctx().choose("xpath", 4)
    if k == 0:
        raise xmlmodel.etree.XPathEvalError("Invalid expression")
    if k == 1:
        return []
    e = xmlmodel.Element("{urn:any}node")
    e.parent = None if k == 2 else xmlmodel.Element("{urn:any}parent")
    return [e]


class Entry:
    _vf_symbolic = True

    def __init__(self, n):
        self.path = SymStr(z3.Const(n + ".path", STR))
        self.message = SymStr(z3.Const(n + ".message", STR))
        self.line = self.column = 1


class Schema:
    _vf_symbolic = True

    def __init__(self, tree):
        if not isinstance(tree, Tree):
            raise Unsupported("schema")
        self.source = tree.source
        self.failed = 0
        ctx().assumptions.add("lxml XMLSchema.assert_ raises AssertionError exactly when the document does not conform")

    def _ok(self, doc):
        if not isinstance(doc, (Tree, xmlmodel.Element)):
            raise TypeError("Invalid input object")
        r = bool(conforms(self.source, doc))
        self.failed += not r
        return r

    def validate(self, doc):
        return self._ok(doc)

    __call__ = validate

    def assert_(self, doc):
        if not self._ok(doc):
            raise AssertionError(SymStr(ctx().fresh("message", STR)))

    def assertValid(self, doc):
        if not self._ok(doc):
            raise xmlmodel.etree.DocumentInvalid(SymStr(ctx().fresh("message", STR)))

    @property
    def error_log(self):
        return SymSeq(f"log{self.failed}", Entry, minlen=1 if self.failed else 0)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"XMLSchema.{name}")


def parse(source, parser=None):
    source = force(source)
    if isinstance(source, xmlmodel.XmlFile):
        ctx().events.append(("parse", source))
        return source.tree
    if isinstance(source, VPath):
        if source.state is None:
            raise OSError("cannot read")
        if source.state[0] == "text" and source.state[1] == "utf-8" and len(source.state[2]) == 1 and \
                isinstance(source.state[2][0], xmlmodel.XmlText):
            return Tree(source.state[2][0].element)
        raise Unsupported("contents of the file")
    if isinstance(source, (pathlib.PurePath, str)):
        return Tree(source=str(source))
    raise Unsupported("parse of a file")


def install():
    M = xmlmodel.EtreeModel
    M.parse = staticmethod(lambda source, parser=None, **kw: parse(source, parser))
    M.XMLSchema = Schema
    M.DocumentInvalid = type("DocumentInvalid", (Exception,), {})
    xmlmodel.XmlText.encode = lambda self, encoding="utf-8", errors="strict": encode(self, encoding)
    xmlmodel.Element.xpath = lambda self, path, **k: found(path)
    xmlmodel.Element.getparent = lambda self: self.__dict__["parent"] if "parent" in self.__dict__ else _no_parent()


def _no_parent():
    raise Unsupported("parent of an element")


class Plain(xmlmodel.EtreeModel):
    """xml.etree: no schema support, no parser options, no pretty printing."""

    def __getattribute__(self, name):
        if name in ("XMLSchema", "LXML_VERSION", "XPathEvalError", "DocumentInvalid"):
            raise AttributeError(name)
        return object.__getattribute__(self, name)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("XMLSchema", "LXML_VERSION", "XPathEvalError", "DocumentInvalid"):
            raise AttributeError(name)
        raise Unsupported(f"etree.{name}")

    @staticmethod
    def XMLParser(*, target=None, encoding=None):
        return ("parser",)

    @staticmethod
    def Element(tag, attrib=None, **extra):
        return xmlmodel.Element(tag, attrib, None, **extra)

    @staticmethod
    def tostring(element, encoding=None, method=None, *, xml_declaration=None, default_namespace=None, short_empty_elements=True):
        return xmlmodel.XmlText(element, encoding, {"xml_declaration": xml_declaration, "default_namespace": default_namespace})


install()
plain = Plain()


class backend:
    """Run with the standard library's or lxml's XML interface."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        from fastkml import config
        self.old = config.etree
        config.etree = plain if self.name == "etree" else xmlmodel.etree

    def __exit__(self, *a):
        from fastkml import config
        config.etree = self.old
        return False
