"""C05: coordinate text."""
from __future__ import annotations

import math

from vf.harness import Harness, REGISTRY, Skip

from .base import KML

Q = "{http://www.opengis.net/kml/2.2}coordinates"


def coordinates():
    from fastkml.geometry import Coordinates
    return Coordinates


def position(S, n):
    """Two or three numbers."""
    return S.seq(n, S.real, minlen=2, maxlen=3, pytype=tuple)


def draw(S, name="c"):
    return S.seq(name, lambda n: position(S, n), minlen=1)


def written(S, coords, p):
    def num(x):
        return S.str(x) if p is None else S.fmt(x, p)
    return S.join(" ", S.map(lambda c: S.join(",", S.map(num, c)), coords))


def writing(S):
    """Positions in order, comma-separated, single spaces between them."""
    coords = draw(S)
    kind = S.choice("container", ["list", "tuple"]) if not S.symbolic else "list"
    o, err = S.run(coordinates(), coords=tuple(coords) if kind == "tuple" else coords)
    S.check("C05", "constructor accepts positions", err is None, lambda: repr(err))
    if err is not None:
        return
    p = S.opt("precision", lambda: S.int("precision", 0, None if S.symbolic else 17))
    v = S.choice("verbosity", ["terse", "normal", "verbose"])
    from .attrs import level
    e, err = S.run(o.etree_element, precision=p, verbosity=level(v))
    S.check("C05", "positions of two or three numbers are written", err is None, lambda: repr(err))
    if err is not None:
        return
    with S.side("spec"):
        want = written(S, coords, p)
    S.check("C05", "text of the positions", S.tree_eq(e, S.el(Q, text=want)), lambda: (S.show(e, S.el(Q, text=want))))
    if p is None and S.wants("C05"):
        back, err = S.run(coordinates().class_from_element, ns=KML, name_spaces=None, element=e, strict=True)
        S.check("C05", "what was written can be read", err is None, lambda: repr(err))
        if err is None:
            S.check("C05", "same numbers in the same order", S.eq(back.coords, S.map(lambda c: c, coords)),
                    lambda: (S.show(e, e), back.coords))


def refusing(S):
    """Positions without two or three numbers are refused on writing."""
    from fastkml.exceptions import KMLWriteError
    coords = draw(S)
    bad = S.choice("bad", [0, 1, 4, 5])
    pos = tuple(S.real(f"b{i}") for i in range(bad))
    where = S.choice("where", ["only", "first", "last", "middle"])
    more = draw(S, "more") if where == "middle" else None
    coords = {"only": lambda: [pos], "first": lambda: S.chain([pos], coords), "last": lambda: S.chain(coords, [pos]),
              "middle": lambda: S.chain(S.chain(coords, [pos]), more)}[where]()
    o = coordinates()(coords=coords)
    e, err = S.run(o.to_string, precision=S.opt("precision", lambda: S.int("precision", 0, None if S.symbolic else 17)))
    S.check("C05", "positions without two or three numbers are refused", isinstance(err, KMLWriteError), lambda: (coords, e, repr(err)))


def holders(S):
    """The same through every geometry that holds coordinates."""
    from fastkml.exceptions import KMLWriteError
    from fastkml import geometry as g
    dim = S.choice("dim", [1, 4])
    C = coordinates()(coords=[tuple(S.real(f"b{k}.{i}") for i in range(dim)) for k in range(4)])
    cls = S.choice("cls", [g.Point, g.LineString, g.LinearRing])
    o = cls(kml_coordinates=C)
    e, err = S.run(o.to_string)
    S.check("C05", "never written with another number of dimensions", isinstance(err, KMLWriteError) or (err is None and "coordinates" not in e),
            lambda: (e, repr(err)))


def position_text(S, name, k=None):
    """Two or three numbers in any form; blanks may follow the commas."""
    toks = S.seq(name, S.number_text, minlen=2, maxlen=3)
    return toks


def loose(S, name, positions):
    return S.loose_join(name, "white", S.map(lambda p: S.loose_join(f"{name}.p", "comma", p), positions), pad=True)


def reading(S):
    """Any whitespace between positions, spaces after a comma."""
    ps = S.seq("c", lambda n: position_text(S, n), minlen=1)
    with S.side("spec"):
        text = loose(S, "text", ps)
    e = S.el(Q, text=text)
    S.freeze(e)
    strict = S.bool("strict")
    o, err = S.run(coordinates().class_from_element, ns=KML, name_spaces=None, element=e, strict=strict)
    S.check("C05", "coordinates are read", err is None, lambda: (text, repr(err)))
    if err is not None:
        return
    with S.side("spec"):
        want = S.map(lambda p: S.map(S.float_of, p), ps)
    S.check("C05", "the same numbers in the same order", S.eq(S.map(lambda p: S.map(lambda x: x, p), o.coords), want), lambda: (text, o.coords, want))
    S.check("C05", "the element is left as it is", S.unchanged())


def broken(S):
    """C03: a position with a piece that is no number, anywhere."""
    from fastkml.exceptions import KMLParseError
    from fastkml import geometry as g
    where = S.params["where"]
    bad = S.chain(S.chain(S.seq("b1", S.number_text), [S.number_text("bad", good=False)]), S.seq("b2", S.number_text))
    one = S.seq("c1", lambda n: position_text(S, n), minlen=1) if where in ("last", "middle") else None
    two = S.seq("c2", lambda n: position_text(S, n), minlen=1) if where in ("first", "middle") else None
    ps = [bad]
    if one is not None:
        ps = S.chain(one, ps)
    if two is not None:
        ps = S.chain(ps, two)
    with S.side("spec"):
        text = loose(S, "text", ps)
    cls = getattr(g, S.params["cls"])
    i = S.text("id", nonempty=True)
    c = S.el(Q, text=text)
    if cls is coordinates():
        e = c
    else:
        e = S.el("{http://www.opengis.net/kml/2.2}" + cls.__name__, attrs={"id": i},
                 children=[S.el("{http://www.opengis.net/kml/2.2}extrude", text="1"), c])
    o, err = S.run(cls.class_from_element, ns=KML, name_spaces=None, element=e, strict=True)
    S.check("C03", "strict reading of malformed coordinates raises the parse error", isinstance(err, KMLParseError), lambda: (text, repr(err), o))
    o, err = S.run(cls.class_from_element, ns=KML, name_spaces=None, element=e, strict=False)
    S.check("C03", "lax reading of malformed coordinates succeeds", err is None, lambda: (text, repr(err)))
    if err is not None:
        return
    S.check("C03", "without the coordinates", S.neg(S.truth(o)), lambda: (text, o))
    if cls is not coordinates():
        S.check("C03", "everything else is read", S.conj(S.eq(o.id, i), S.eq(o.extrude, True)), lambda: (text, repr(o)))


def malformed(S):
    """C03: malformed coordinate text."""
    from fastkml.exceptions import KMLParseError
    from fastkml import geometry as g
    r = S.src.r
    good = [",".join(repr(S.real(f"g{k}.{i}")) for i in range(2)) for k in range(S.choice("n", [0, 1, 3]))]
    bad = S.choice("bad", ["x", "1,x", "x,1", "1;2", "1,2,z", "1,,2", ",1,2", "--1,2", "1,2e", "(1,2)", "1,2;3,4", "a b", "1.2.3,4"])
    good.insert(r.randrange(len(good) + 1), bad)
    text = r.choice([" ", "\n"]).join(good)
    S.record["text"] = text
    cls = S.choice("cls", [g.Point, g.LineString, g.LinearRing])
    t = f'<{cls.__name__} xmlns="http://www.opengis.net/kml/2.2" id="i"><extrude>1</extrude><coordinates>{text}</coordinates></{cls.__name__}>'
    o, err = S.run(cls.from_string, t, strict=True)
    S.check("C03", "strict reading of malformed coordinates raises the parse error", isinstance(err, KMLParseError), lambda: (t, repr(err), o))
    o, err = S.run(cls.from_string, t, strict=False)
    S.check("C03", "lax reading of malformed coordinates succeeds", err is None, lambda: (t, repr(err)))
    S.check("C03", "without the coordinates", not o.kml_coordinates and o.geometry is None and not o, lambda: (t, repr(o)))
    S.check("C03", "everything else is read", o.id == "i" and o.extrude is True, lambda: (t, repr(o)))


REGISTRY.append(Harness(writing, "coords:write", ["C05"], ("fastkml.geometry.coordinates_subelement",), cross=400, pool=600))
REGISTRY.append(Harness(refusing, "coords:refuse", ["C05"], ("fastkml.geometry.coordinates_subelement",), cross=200, pool=300))
REGISTRY.append(Harness(holders, "coords:holders", ["C05"], (), mode="concrete", pool=100, why="geometry library"))
REGISTRY.append(Harness(reading, "coords:read", ["C05"], (), cross=1500, pool=1500))
for _c in ("Coordinates", "Point", "LineString", "LinearRing"):
    for _w in ("only", "first", "last", "middle"):
        REGISTRY.append(Harness(broken, f"coords:broken:{_c}:{_w}", ["C03"], (), params={"cls": _c, "where": _w}, cross=30, pool=60))
REGISTRY.append(Harness(malformed, "coords:malformed", ["C03"], (), mode="concrete", pool=300, why="regular expressions and float text forms"))
