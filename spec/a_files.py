"""C14: files; C07: namespaces of documents read from files."""
from __future__ import annotations

import io
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import zipfile

from vf.harness import Harness, REGISTRY

from . import compare, gen, oracle
from .attrs import LEVELS, level


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf-files-")
        return pathlib.Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def document(S, mode="default"):
    return gen.obj(S, "k", "fastkml.kml.KML", mode=mode, depth=S.choice("depth", [1, 2]), solid=S.bool("solid"))


def expected(o, pretty, p, verb):
    return o.to_string(prettyprint=pretty, precision=p, verbosity=level(verb))


def writing(S):
    """The file holds exactly the XML text."""
    o = document(S, S.choice("mode", ["default", "default", "own", "none"]))
    with scratch() as d:
        name = S.choice("name", ["a.kml", "a.kmz", "a.xml", "a", "été.kmz", "x.y.kml", "kmz", "a.kmz.kml", "a.kml.kmz", "日本.kml", ".kmz", "a.kmzx"])
        path = d / name
        kw = {}
        if S.bool("prettyprint?"):
            kw["prettyprint"] = S.bool("pretty")
        if S.bool("precision?"):
            kw["precision"] = S.choice("precision", [None, 0, 2, 6])
        if S.bool("verbosity?"):
            kw["verbosity"] = level(S.choice("verbosity", LEVELS))
        old = S.choice("old", ["absent", "longer", "zip"])
        if old == "longer":
            path.write_bytes(b"old contents " * 5000)
        elif old == "zip":
            with zipfile.ZipFile(path, "w") as z:
                z.writestr("other.kml", "x" * 1000)
                z.writestr("doc.kml", "old")
        before = S.snapshot(o)
        r, err = S.run(o.write, path, **kw)
        S.check("C14", "writing succeeds", err is None, lambda: (name, repr(err)))
        S.check("C16", "writing a file leaves the document unchanged", S.same(before))
        want = o.to_string(**kw).encode("utf-8")
        S.check("C14", "only that file is written", sorted(os.listdir(d)) == [name], lambda: os.listdir(d))
        raw = path.read_bytes()
        if path.suffix == ".kmz":
            S.check("C14", "a .kmz file is a zip archive", zipfile.is_zipfile(path), lambda: raw[:80])
            with zipfile.ZipFile(path) as z:
                S.check("C14", "its only member is doc.kml", z.namelist() == ["doc.kml"], lambda: z.namelist())
                S.check("C14", "holding the XML text", z.read("doc.kml") == want, lambda: (z.read("doc.kml")[:300], want[:300]))
                S.check("C14", "readable archive", z.testzip() is None)
        else:
            S.check("C14", "the file holds the XML text", raw == want, lambda: (raw[:300], want[:300]))


def reading(S):
    """Reading a plain file back."""
    from fastkml import KML
    o = document(S)
    with scratch() as d:
        path = d / S.choice("name", ["a.kml", "été.kml", "a.xml"])
        pretty = S.bool("pretty")
        o.write(path, prettyprint=pretty)
        how = S.choice("how", ["path", "str", "binary", "bytes"])
        strict = S.bool("strict")
        if how == "path":
            back, err = S.run(KML.parse, path, strict=strict, validate=False)
        elif how == "str":
            back, err = S.run(KML.parse, str(path), strict=strict, validate=False)
        elif how == "binary":
            with path.open("rb") as f:
                back, err = S.run(KML.parse, f, strict=strict, validate=False)
        else:
            back, err = S.run(KML.parse, io.BytesIO(path.read_bytes()), strict=strict, validate=False)
        S.check("C14", "reading the file succeeds", err is None, lambda: (how, repr(err)))
        oracle.regroup(o)
        S.check("C14 C01", "an equal document", back == o and o == back, lambda: (path.read_text(encoding="utf-8"), repr(back)))
        S.check("C14 C01", "every attribute survives", compare.alike(S, back, o), lambda: path.read_text(encoding="utf-8"))


def sizes(S):
    """Long texts and many features."""
    from fastkml import KML, Folder, Placemark
    length, count = S.params
    made = [Placemark(id=f"p{k}", name=f"n{k}", description="ab c" * (length // 4)) for k in range(count)]
    o = KML(features=[Folder(id="f", features=made)])
    with scratch() as d:
        for how in ("a.kml", "a.kmz"):
            o.write(d / how, prettyprint=False)
            if how.endswith("kmz"):
                with zipfile.ZipFile(d / how) as z:
                    source = io.BytesIO(z.read("doc.kml"))
            else:
                source = d / how
            back, err = S.run(KML.parse, source, validate=False)
            S.check("C14", f"{how}: reading back succeeds", err is None, lambda: repr(err))
            S.check("C14", f"{how}: an equal document", back == o)


CHILD = r"""
import sys, pathlib, zipfile
sys.path.insert(0, sys.argv[1])
import fastkml
from fastkml import KML, Placemark
o = KML(features=[Placemark(id="i", name="\xe9t\xe9 \u65e5\u672c \U0001f600")])
for s in ("a.kml", "a.kmz"):
    p = pathlib.Path(sys.argv[2]) / s
    o.write(p)
    raw = zipfile.ZipFile(p).read("doc.kml") if s.endswith("kmz") else p.read_bytes()
    assert raw == o.to_string().encode("utf-8"), raw
back = KML.parse(pathlib.Path(sys.argv[2]) / "a.kml", validate=False)
assert back == o, back
print("fine")
"""


def locales(S):
    """UTF-8 whatever the locale."""
    import fastkml
    repo = str(pathlib.Path(fastkml.__file__).parent.parent)
    env = {**{k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}, "LC_ALL": S.params,
           "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    with scratch() as d:
        r = subprocess.run([sys.executable, "-c", CHILD, repo, str(d)], env=env, capture_output=True, text=True, errors="replace", timeout=60)
    S.check("C14", f"UTF-8 in locale {S.params}", r.returncode == 0 and r.stdout.strip() == "fine", lambda: (r.stdout, r.stderr[-1500:]))


def namespaces(S):
    """C07: the KML namespace comes from the root element, the caller's spaces override the defaults."""
    from fastkml import KML
    from fastkml.enums import AltitudeMode
    root = S.choice("root", ["http://www.opengis.net/kml/2.2", "http://earth.google.com/kml/2.2", "http://earth.google.com/kml/2.1", "urn:k", None])
    gxn = S.choice("gx", ["http://www.google.com/kml/ext/2.2", "urn:gx"])
    x = f' xmlns="{root}"' if root else ""
    text = (f'<kml{x} xmlns:g="{gxn}"><Document id="d"><name>n</name><Placemark id="p"><name>m</name>'
            "<Point><extrude>1</extrude><coordinates>1,2</coordinates></Point></Placemark>"
            "<Placemark id='q'><LookAt><longitude>1</longitude><g:altitudeMode>relativeToSeaFloor</g:altitudeMode></LookAt></Placemark>"
            "</Document></kml>")
    sp = None
    if gxn == "urn:gx" or S.bool("sp"):
        sp = {"gx": "{" + gxn + "}"}
    ns = S.choice("ns", [None, "explicit"])
    kw = {"name_spaces": sp, "strict": S.bool("strict"), "validate": False}
    if ns and root:
        kw["ns"] = "{" + root + "}"
    given = dict(sp) if sp else None
    o, err = S.run(KML.parse, io.BytesIO(text.encode()), **kw)
    S.check("C07", "the document is read", err is None, lambda: (text, repr(err)))
    if not root:
        return
    q = "{" + root + "}"
    S.check("C07", "the root's namespace", o.ns == q and o.name_spaces["kml"] == q, lambda: (o.ns, o.name_spaces))
    S.check("C07", "the document is found in the root's namespace", len(o.features) == 1 and o.features[0].ns == q and o.features[0].name == "n"
            and [f.id for f in o.features[0].features] == ["p", "q"] and o.features[0].features[0].name == "m"
            and o.features[0].features[0].geometry is not None, lambda: repr(o))
    S.check("C07", "spaces supplied by the caller are used", o.features[0].features[1].view.altitude_mode is AltitudeMode.relative_to_sea_floor,
            lambda: repr(o.features[0].features[1]))
    S.check("C16", "the caller's namespaces are left alone", sp == given)


# -- symbolic contracts


def element_contract(S, ns):
    """Callers of KML.etree_element see an arbitrary element, the same one for the same arguments."""
    from vf import xmlmodel
    from fastkml.enums import Verbosity
    made = {}

    def element(f, *a, **k):
        args = (k.get("precision", a[0] if a else None), k.get("verbosity", a[1] if len(a) > 1 else Verbosity.normal))
        if args not in made:
            made[args] = xmlmodel.Element(ns + "kml", attrib={"n": str(len(made))})
        return made[args]
    S.contract("fastkml.kml.KML.etree_element", element)
    return made


def stored_contract(S):
    """For every document, options, earlier contents and XML library: exactly the XML text is stored."""
    from vf import files, xmlmodel
    from .base import NSMODES
    from fastkml import KML
    from fastkml.enums import Verbosity
    lib = S.choice("library", ["lxml", "etree"])
    mode = S.choice("ns", ["default", "own", "none"])
    with files.backend(lib):
        o = KML(**NSMODES[mode])
        element_contract(S, o.ns)
        kw = {}
        pretty = S.choice("prettyprint", ["absent", True, False])
        if pretty != "absent":
            kw["prettyprint"] = pretty
        kw.update(S.choice("options", [{}, {"precision": 4, "verbosity": Verbosity.verbose}, {"verbosity": Verbosity.terse}]))
        old = S.choice("old", [None, ("text", "utf-8", ["old contents"]), ("zip", [("doc.kml", "utf-8", "old"), ("b", "utf-8", "x")])])
        path = files.VPath(S.choice("name", ["a.kml", "a.kmz", "b.kmz.kml", "b.kml.kmz", "kmz", ".kmz"]), old)
        zipped = path.suffix == ".kmz"
        S.assume(old is None or (old[0] == "zip") == zipped)
        snap = S.snapshot(o, o.name_spaces)
        r, err = S.run(o.write, path, **kw)
        S.check("C14", "writing succeeds", err is None, lambda: repr(err))
        if err is not None:
            return
        want, _ = S.run(o.to_string, **kw)
        S.check("C16", "writing leaves the document unchanged", S.same(snap))
        st = path.state
        S.check("C14", "an archive exactly for .kmz", st is not None and st[0] == ("zip" if zipped else "text"))
        if zipped:
            S.check("C14", "doc.kml is the only member", [m[0] for m in st[1]] == ["doc.kml"])
            enc, chunks = st[1][0][1], [st[1][0][2]]
        else:
            enc, chunks = st[1], st[2]
        S.check("C14", "in UTF-8", enc == "utf-8")
        S.check("C14", "only the XML text", len(chunks) == 1 and isinstance(chunks[0], xmlmodel.XmlText))
        got = chunks[0]
        S.check("C14", "the XML text of the document", got.kw == want.kw and got.encoding == want.encoding
                and S.tree_eq(got.element, want.element))


def trip_contract(S):
    """A plain file is read from the root element that was written, in the document's namespace."""
    from vf import files
    from .base import NSMODES, STD
    from fastkml import KML
    mode = S.choice("ns", ["default", "own"])
    with files.backend(S.choice("library", ["lxml", "etree"])):
        o = KML(**NSMODES[mode])
        made = element_contract(S, o.ns)
        path = files.VPath(S.choice("name", ["a.kml", "a.xml"]))
        _, err = S.run(o.write, path)
        S.check("C14", "writing succeeds", err is None, lambda: repr(err))
        if err is not None:
            return
        marker = object()
        calls = []

        def read(f, *, ns, element, strict, name_spaces=None):
            calls.append((ns, name_spaces, element, strict))
            return marker
        S.contract("fastkml.base._XMLObject.class_from_element", read)
        strict = S.bool("strict")
        back, err = S.run(KML.parse, path, strict=strict, validate=False)
        S.check("C14", "reading succeeds", err is None, lambda: repr(err))
        S.check("C14", "the object read from the root element", back is marker and len(calls) == 1)
        ns, sp, e, st = calls[0]
        S.check("C14", "from the element that was written", any(e is x for x in made.values()) and e.get("n") == "0")
        S.check("C14", "in the document's namespace", ns == o.ns and sp == {**STD, "kml": o.ns})
        S.check("C14", "strictness is passed on", S.eq(st, strict))


def root_contract(S):
    """The namespace of the document is the root element's, unless given; the caller's spaces override the defaults."""
    from vf import files, xmlmodel
    from fastkml import KML
    from .base import STD
    with files.backend(S.choice("library", ["lxml", "etree"])):
        uri = S.text("uri", token=True)
        rootns = S.choice("root", ["none", "any"])
        q = "" if rootns == "none" else "{" + uri + "}"
        root = xmlmodel.Element(q + "kml")
        given = S.choice("ns", [None, "{urn:given}"])
        sp = S.choice("spaces", [None, {}, {"gx": "{urn:g}"}, {"kml": "{urn:k}", "foo": "{urn:f}"}])
        before = None if sp is None else dict(sp)
        kw = {} if given is None else {"ns": given}
        if sp is not None or S.choice("explicit", [True, False]):
            kw["name_spaces"] = sp
        strict = S.bool("strict")
        calls = []

        def made(f, *, ns, element, strict, name_spaces=None):
            calls.append((ns, name_spaces, element, strict))
            return marker
        marker = object()
        S.contract("fastkml.base._XMLObject.class_from_element", made)
        r, err = S.run(KML.parse, xmlmodel.XmlFile(files.Tree(root)), strict=strict, validate=False, **kw)
        S.check("C07", "parsing succeeds", err is None, lambda: repr(err))
        if err is not None:
            return
        S.check("C07 C16", "the object read from the root element", r is marker and len(calls) == 1 and calls[0][2] is root)
        ns, spaces, _, st = calls[0]
        S.check("C07", "the namespace of the root element, unless given", S.eq(ns, q if given is None else given))
        want = {**STD, **(sp or {})}
        if given is not None or rootns == "any":
            want["kml"] = q if given is None else given
        S.check("C07", "the caller's spaces override the defaults", set(spaces) == set(want))
        for k in want:
            S.check("C07", "the caller's spaces override the defaults", S.eq(spaces[k], want[k]))
        S.check("C07", "strictness is passed on", S.eq(st, strict))
        S.check("C16", "the caller's namespaces are left alone", sp == before)
        from fastkml import config
        S.check("C16", "the defaults are left alone", config.NAME_SPACES == STD)


REGISTRY.append(Harness(stored_contract, "file:stored", ["C14", "C16"], (), mode="symbolic"))
REGISTRY.append(Harness(trip_contract, "file:trip", ["C14"], (), mode="symbolic"))
REGISTRY.append(Harness(root_contract, "file:root", ["C07", "C16"], (), mode="symbolic"))
REGISTRY.append(Harness(writing, "file:write", ["C14", "C16"], (), mode="concrete", pool=500, why="file system and zip archives"))
REGISTRY.append(Harness(reading, "file:read", ["C14", "C01"], (), mode="concrete", pool=400, why="file system"))
for loc in ("C", "C.UTF-8", "POSIX"):
    REGISTRY.append(Harness(locales, f"file:locale.{loc}", ["C14"], (), params=loc, mode="concrete", pool=1, backend="lxml", why="process locale"))
for size in ((10_000_400, 1), (70_000, 20), (40, 3000)):
    REGISTRY.append(Harness(sizes, f"file:size.{size[0]}x{size[1]}", ["C14"], (), params=size, mode="concrete", pool=1, why="size of the file"))
REGISTRY.append(Harness(namespaces, "file:namespace", ["C07", "C16"], (), mode="concrete", pool=120, why="XML parser"))
