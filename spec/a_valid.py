"""C15: validation."""
from __future__ import annotations

import io
import pathlib

from vf.harness import Harness, REGISTRY

from . import gen
from .a_files import scratch

HEAD = '<kml xmlns="http://www.opengis.net/kml/2.2" xmlns:atom="http://www.w3.org/2005/Atom" xmlns:gx="http://www.google.com/kml/ext/2.2">'

VALID = [
    "<Placemark><name>a</name></Placemark>",
    "<Placemark id='a'><name>a</name><visibility>1</visibility><Point><coordinates>1,2</coordinates></Point></Placemark>",
    "<Document><name>a</name><Style id='s'><LineStyle><color>ff00ff00</color><width>2.5</width></LineStyle></Style><Placemark/></Document>",
    "<Folder><name>x</name><open>0</open><Folder/><Placemark><LineString><tessellate>1</tessellate><coordinates>1,2 3,4</coordinates></LineString></Placemark></Folder>",
    "<GroundOverlay><Icon><href>a.png</href></Icon><LatLonBox><north>1</north><south>0</south><east>1</east><west>0</west></LatLonBox></GroundOverlay>",
    "<ScreenOverlay><overlayXY x='0' y='1' xunits='fraction' yunits='pixels'/></ScreenOverlay>",
    "<Placemark><TimeSpan><begin>2000-01</begin><end>2001</end></TimeSpan></Placemark>",
    "<Placemark><ExtendedData><Data name='a'><value>1</value></Data></ExtendedData></Placemark>",
    "<NetworkLink><Link><href>a</href><refreshMode>onExpire</refreshMode></Link></NetworkLink>",
    "<Document><Schema name='n' id='i'><SimpleField type='int' name='f'/></Schema></Document>",
    "<Placemark><MultiGeometry><Point><coordinates>1,2,3</coordinates></Point><Polygon><outerBoundaryIs><LinearRing><coordinates>0,0 1,0 1,1 0,0"
    "</coordinates></LinearRing></outerBoundaryIs></Polygon></MultiGeometry></Placemark>",
    "",
]
INVALID = [
    "<Placemark><visibility>maybe</visibility></Placemark>",
    "<Placemark><nonsense/></Placemark>",
    "<Placemark><visibility>1</visibility><name>a</name></Placemark>",
    "<Nonsense/>",
    "<Document><Style><LineStyle><width>wide</width></LineStyle></Style></Document>",
    "<Document><Style><LineStyle><color>red</color></LineStyle></Style></Document>",
    "<Placemark><Point><altitudeMode>high</altitudeMode></Point></Placemark>",
    "<Placemark><LookAt><heading>720</heading></LookAt></Placemark>",
    "<GroundOverlay><LatLonBox><north>up</north></LatLonBox></GroundOverlay>",
    "<NetworkLink><Link><refreshMode>sometimes</refreshMode></Link></NetworkLink>",
    "<Placemark><TimeStamp><when>tomorrow</when></TimeStamp></Placemark>",
    "<Placemark><Point><coordinates>1,2</coordinates></Point><name>late</name></Placemark>",
    "<Placemark><Point/><Point/></Placemark>",
    "<Document/><Document/>",
    "<ScreenOverlay><overlayXY x='a'/></ScreenOverlay>",
    "<Placemark unknown='1'/>",
    "<Folder><Placemark><Placemark/></Placemark></Folder>",
]
XSD = """<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="a"><xs:complexType><xs:sequence>
<xs:element name="b" type="xs:int" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element></xs:schema>"""


def doc(body):
    return HEAD + body + "</kml>"


def verdict(S, r, err, good, what):
    if good:
        S.check("C15", "a schema-valid document is accepted", err is None and r is True, lambda: (what, r, repr(err)))
    else:
        S.check("C15", "an invalid document raises an assertion error", isinstance(err, AssertionError), lambda: (what, r, repr(err)))


def elements(S):
    """Elements and files against the KML schema, repeatedly."""
    from fastkml import config
    from fastkml.validator import validate
    with scratch() as d:
        for k in range(S.choice("rounds", [1, 2, 4])):
            good = S.bool(f"good{k}")
            body = S.choice(f"body{k}", VALID if good else INVALID)
            how = S.choice(f"how{k}", ["element", "tree", "path", "other", "part", "subtree"])
            if how == "element":
                r, err = S.run(lambda: validate(element=config.etree.fromstring(doc(body))))
            elif how == "tree":
                r, err = S.run(lambda: validate(element=config.etree.parse(io.BytesIO(doc(body).encode()))))
            elif how in ("part", "subtree"):
                n = S.choice(f"n{k}", [0, 1, 2])
                x = config.etree.fromstring(f"<a xmlns='http://www.opengis.net/kml/2.2'><b/>" + "<c/>" * n + doc(body) + "</a>")
                e = x[-1]
                if how == "subtree" and len(e):
                    e = e[0]
                    if body == "<Document/><Document/>":
                        good = True
                r, err = S.run(lambda: validate(element=e))
            elif how == "path":
                p = d / f"f{k}.kml"
                p.write_text(doc(body), encoding="utf-8")
                r, err = S.run(lambda: validate(file_to_validate=p))
            else:
                x = d / "x.xsd"
                x.write_text(XSD)
                text = "<a>" + ("<b>1</b><b>2</b>" if good else S.choice(f"ob{k}", ["<b>x</b>", "", "<c/>"])) + "</a>"
                r, err = S.run(lambda: validate(schema=x, element=config.etree.fromstring(text)))
                body = text
            if S.backend == "etree":
                S.check("C15", "nothing without schema support", err is None and r is None, lambda: (how, r, repr(err)))
            else:
                verdict(S, r, err, good, (how, body))


def broken(S):
    """A file that is no well-formed XML does not conform to anything."""
    from fastkml.validator import validate
    with scratch() as d:
        text = doc(S.choice("body", VALID)).rstrip()
        how = S.choice("how", ["cut", "open", "entity", "twice", "empty"])
        if how == "cut":
            text = text[:S.int("at", 1, len(text) - 1)]
        else:
            text = {"open": text[:-len("</kml>")], "entity": text[:-len("</kml>")] + "&nope;</kml>", "twice": text + text, "empty": ""}[how]
        p = d / "broken.kml"
        p.write_text(text, encoding="utf-8")
        r, err = S.run(lambda: validate(file_to_validate=p))
        if S.backend == "etree":
            S.check("C15", "nothing without schema support", r is None, lambda: (text, r, repr(err)))
        else:
            S.check("C15", "a file that is no XML is not accepted", err is not None and r is not True, lambda: (text, r, repr(err)))


def changed(S):
    """An element is judged as it is now, whatever was found earlier."""
    from fastkml import config
    from fastkml.validator import validate
    e = config.etree.fromstring(doc(S.choice("body", VALID)))
    tree = config.etree.ElementTree(e)
    n = 0
    for k in range(S.choice("rounds", [2, 3, 5])):
        if S.bool(f"spoil{k}"):
            config.etree.SubElement(e, "{http://www.opengis.net/kml/2.2}Nonsense")
            n += 1
        elif n and S.bool(f"mend{k}"):
            e.remove(e[-1])
            n -= 1
        r, err = S.run(lambda: validate(element=S.choice(f"as{k}", [e, tree])))
        if S.backend == "etree":
            S.check("C15", "nothing without schema support", err is None and r is None, lambda: (r, repr(err)))
        else:
            verdict(S, r, err, n == 0, (k, n))


def objects(S):
    """Objects validate exactly when their XML conforms to the schema."""
    import lxml.etree
    q = S.choice("q", ["fastkml.kml.KML", "fastkml.containers.Document", "fastkml.containers.Folder", "fastkml.features.Placemark",
                       "fastkml.styles.Style", "fastkml.styles.StyleMap", "fastkml.geometry.Polygon", "fastkml.geometry.Point", "fastkml.views.LookAt",
                       "fastkml.times.TimeSpan", "fastkml.features.NetworkLink", "fastkml.overlays.GroundOverlay", "fastkml.atom.Link"])
    o = gen.obj(S, "o", q, depth=S.choice("depth", [0, 1]), solid=S.bool("solid"))
    r, err = S.run(o.validate)
    if S.backend == "etree":
        S.check("C15", "nothing without schema support", err is None and r is None, lambda: (r, repr(err)))
        return
    good = reference().validate(lxml.etree.fromstring(o.to_string()))
    verdict(S, r, err, good, o.to_string())
    e = o.etree_element()
    from fastkml.validator import validate
    r, err = S.run(lambda: validate(element=e))
    verdict(S, r, err, good, o.to_string())


_REF = []


def reference():
    import fastkml
    import lxml.etree
    if not _REF:
        p = pathlib.Path(fastkml.__file__).parent / "schema" / "ogckml22.xsd"
        _REF.append(lxml.etree.XMLSchema(lxml.etree.parse(str(p))))
    return _REF[0]


def parsing(S):
    """Strict parsing validates unless told otherwise, lax parsing on request."""
    from fastkml import KML
    good = S.bool("good")
    body = S.choice("body", VALID if good else INVALID[:1] + INVALID[2:])
    strict = S.bool("strict")
    validate = S.choice("validate", [None, True, False])
    kw = {"strict": strict} if S.bool("strict?") or not strict else {}
    if validate is not None or S.bool("validate?"):
        kw["validate"] = validate
    with scratch() as d:
        p = d / "a.kml"
        p.write_text(doc(body), encoding="utf-8")
        src = S.choice("src", [lambda: p, lambda: str(p), lambda: io.BytesIO(doc(body).encode())])
        o, err = S.run(KML.parse, src(), **kw)
    effective = strict if validate is None else validate
    if S.backend == "etree":
        effective = False
    if effective and not good:
        S.check("C15", "an invalid document is refused", isinstance(err, AssertionError), lambda: (body, kw, repr(err)))
    elif good:
        S.check("C15", "a valid document is read", err is None, lambda: (body, kw, repr(err)))
    elif not strict:
        S.check("C15", "without validation an invalid document is read leniently", err is None, lambda: (body, kw, repr(err)))
    else:
        S.check("C15", "without validation no assertion error", not isinstance(err, AssertionError), lambda: (body, kw, repr(err)))


def exclusive(S):
    from fastkml import config
    from fastkml.validator import validate
    e = config.etree.fromstring(doc(VALID[0]))
    with scratch() as d:
        p = d / "a.kml"
        p.write_text(doc(VALID[0]))
        for kw in ({}, {"element": e, "file_to_validate": p}, {"element": None, "file_to_validate": None}):
            r, err = S.run(lambda: validate(**kw))
            S.check("C15", "exactly one of element and file", isinstance(err, ValueError), lambda: (kw, r, repr(err)))
        empty = config.etree.fromstring("<kml xmlns='http://www.opengis.net/kml/2.2'/>")
        r, err = S.run(lambda: validate(element=empty))
        S.check("C15", "an element without children counts as given", err is None and r is (True if S.backend == "lxml" else None), lambda: repr(err))


def examples(S):
    """Every handwritten document once."""
    from fastkml.validator import validate
    from fastkml import config
    for good, bodies in ((True, VALID), (False, INVALID)):
        for b in bodies:
            r, err = S.run(lambda: validate(element=config.etree.fromstring(doc(b))))
            verdict(S, r, err, good, b)


# -- symbolic contracts


def default_schema():
    import fastkml
    return str(pathlib.Path(fastkml.__file__).parent / "schema" / "ogckml22.xsd")


def root(S, name):
    from vf import xmlmodel
    e = xmlmodel.Element("{http://www.opengis.net/kml/2.2}kml")
    e.vf_name = name
    return e


def judged(S, lib, schema, e, r, err, extra=""):
    """The verdict on one document, whatever the schema says about it."""
    from vf import files
    if lib == "etree":
        S.check("C15", "nothing without schema support" + extra, err is None and r is None, lambda: repr(err))
        return
    ok = bool(files.conforms(schema or default_schema(), e))
    if ok:
        S.check("C15", "true for a document that conforms to the schema in use" + extra, err is None and r is True, lambda: repr(err))
    else:
        S.check("C15", "an assertion error for any other document" + extra, isinstance(err, AssertionError), lambda: repr(err))


def verdict_contract(S):
    """For every document and schema, element or file, once and again."""
    from vf import files, xmlmodel
    from fastkml.validator import validate
    lib = S.choice("library", ["lxml", "etree"])
    with files.backend(lib):
        for k in range(2):
            how = S.choice(f"how{k}", ["element", "tree", "file"])
            schema = S.choice(f"schema{k}", [None, "/own.xsd"])
            e = root(S, f"doc{k}")
            kw = {"element": e} if how == "element" else {"element": files.Tree(e)} if how == "tree" else {
                "file_to_validate": xmlmodel.XmlFile(files.Tree(e))}
            if schema is not None:
                kw["schema"] = pathlib.Path(schema)
            r, err = S.run(validate, **kw)
            judged(S, lib, schema, e, r, err)
        if how != "file":
            e.vf_name = "changed"
            r, err = S.run(validate, **kw)
            judged(S, lib, schema, e, r, err, " also when it was changed in between")


def object_contract(S):
    """Every object is validated as the element it is written as."""
    from vf import files
    from .base import required, resolve
    q = S.params
    lib = S.choice("library", ["lxml", "etree"])
    with files.backend(lib):
        o = resolve(q)(**required(q))
        e = root(S, "written")
        calls = []

        def element(f, *a, **k):
            calls.append((a, k))
            return e
        for c in type(o).__mro__[:-1]:
            if "etree_element" in vars(c):
                S.contract(f"{c.__module__}.{c.__qualname__}.etree_element", element)
        r, err = S.run(o.validate)
        judged(S, lib, None, e, r, err)


def parse_contract(S):
    """Strict parsing validates unless told otherwise, lax parsing only on request."""
    from vf import files, xmlmodel
    from fastkml import KML
    lib = S.choice("library", ["lxml", "etree"])
    with files.backend(lib):
        e = root(S, "doc")
        strict = S.choice("strict", ["absent", True, False])
        validate = S.choice("validate", ["absent", None, True, False])
        kw = {k: v for k, v in (("strict", strict), ("validate", validate)) if v != "absent"}
        marker = object()
        calls = []

        def read(f, *, ns, element, strict, name_spaces=None):
            calls.append((element, strict))
            return marker
        S.contract("fastkml.base._XMLObject.class_from_element", read)
        r, err = S.run(KML.parse, xmlmodel.XmlFile(files.Tree(e)), **kw)
        st = strict in ("absent", True)
        val = st if validate in ("absent", None) else validate
        if lib == "lxml" and val and not bool(files.conforms(default_schema(), e)):
            S.check("C15", "an invalid document is refused", isinstance(err, AssertionError), lambda: repr(err))
        else:
            S.check("C15", "any other document is read", err is None and r is marker and calls == [(e, st)], lambda: repr(err))


def exclusive_contract(S):
    from vf import files, xmlmodel
    from fastkml.validator import validate
    with files.backend(S.choice("library", ["lxml", "etree"])):
        e = root(S, "doc")
        both = S.choice("both", [False, True])
        kw = {"element": e, "file_to_validate": xmlmodel.XmlFile(files.Tree(e))} if both else S.choice("none", [{}, {"element": None}])
        r, err = S.run(validate, **kw)
        S.check("C15", "exactly one of element and file", isinstance(err, ValueError), lambda: repr(err))


def _symbolic():
    from .base import PUBLIC, short
    REGISTRY.append(Harness(verdict_contract, "valid:verdict", ["C15"], (), mode="symbolic"))
    REGISTRY.append(Harness(parse_contract, "valid:strict", ["C15"], (), mode="symbolic"))
    REGISTRY.append(Harness(exclusive_contract, "valid:arguments", ["C15"], (), mode="symbolic"))
    for q in PUBLIC:
        REGISTRY.append(Harness(object_contract, f"valid:as-written:{short(q)}", ["C15"], (), params=q, mode="symbolic"))


_symbolic()
REGISTRY.append(Harness(elements, "valid:element", ["C15"], (), mode="concrete", pool=300, why="libxml2 schema validation"))
REGISTRY.append(Harness(broken, "valid:broken", ["C15"], (), mode="concrete", pool=200, why="libxml2 parser"))
REGISTRY.append(Harness(changed, "valid:changed", ["C15"], (), mode="concrete", pool=150, why="libxml2 schema validation"))
REGISTRY.append(Harness(objects, "valid:object", ["C15"], (), mode="concrete", pool=300, why="libxml2 schema validation"))
REGISTRY.append(Harness(parsing, "valid:parse", ["C15"], (), mode="concrete", pool=400, why="libxml2 schema validation"))
REGISTRY.append(Harness(exclusive, "valid:exclusive", ["C15"], (), mode="concrete", pool=3, why="argument combinations"))
REGISTRY.append(Harness(examples, "valid:examples", ["C15"], (), mode="concrete", pool=1, backend="lxml", why="handwritten documents"))
