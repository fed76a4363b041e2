"""C20: derived values."""
from __future__ import annotations

from vf.harness import Harness, REGISTRY

from . import gen
from .base import CLASSES, NSMODES, PUBLIC, resolve, short

TIMED = [q for q in PUBLIC if any(c in ("fastkml.features._Feature", "fastkml.views._AbstractView") for c in CLASSES[q]["mro"])]


def style_maps(S):
    from fastkml.enums import PairKey
    from fastkml.styles import Pair, StyleMap
    def pair(n):
        key = S.choice(f"{n}.key", [PairKey.normal, PairKey.highlight, None])
        return Pair(key=key, style=S.opt(f"{n}.style", lambda: S.child(f"{n}.s", S.choice(f"{n}.c", ["fastkml.styles.Style", "fastkml.styles.StyleUrl"]))))
    n = S.choice("n", [0, 1, 2, 3, 4])
    pairs = [pair(f"p{k}") for k in range(n)]
    m, err = S.run(StyleMap, pairs=pairs)
    S.check("C20", "a style map can be made", err is None, lambda: repr(err))
    if err is not None:
        return
    def look(what):
        for name, key in (("normal", PairKey.normal), ("highlight", PairKey.highlight)):
            want = None
            for p in m.pairs:
                if p.key is key:
                    want = p.style
                    break
            got, err = S.run(lambda: getattr(m, name))
            S.check("C20", f"{name} style {what}", err is None and got is want, lambda: (m, got, want, repr(err)))
    look("of a new map")
    if pairs:
        k = S.choice("k", list(range(n)))
        op = S.choice("op", ["key", "style", "remove", "add", "reverse", "replace"])
        if op == "key":
            pairs[k].key = S.choice("nk", [PairKey.normal, PairKey.highlight, None])
        elif op == "style":
            pairs[k].style = S.child("ns", "fastkml.styles.StyleUrl")
        elif op == "remove":
            m.pairs = [p for i, p in enumerate(pairs) if i != k]
        elif op == "add":
            m.pairs = [pair("extra"), *pairs]
        elif op == "reverse":
            m.pairs = list(reversed(pairs))
        else:
            m.pairs = [pair("only")]
        look(f"after {op}")


def first_pairs(S):
    """Any number of other pairs before and after the first pair with the key."""
    from fastkml.enums import PairKey
    from fastkml.styles import Pair, StyleMap
    name, key, others = S.choice("which", [("normal", PairKey.normal, [PairKey.highlight, None]), ("highlight", PairKey.highlight, [PairKey.normal, None])])

    def pair(n, keys):
        k = S.choice(f"{n}.key", keys)
        return Pair(key=k, style=S.opt(f"{n}.style", lambda: S.child(f"{n}.s", S.choice(f"{n}.c", ["fastkml.styles.Style", "fastkml.styles.StyleUrl"]))))
    before = S.seq("before", lambda n: pair(n, others))
    if S.bool("there"):
        pivot = pair("pivot", [key])
        pairs = S.chain(S.chain(before, [pivot]), S.seq("after", lambda n: pair(n, [*others, key])))
        want = pivot.style
    else:
        pairs, want = before, None
    m, err = S.run(StyleMap, pairs=pairs)
    S.check("C20", "a style map can be made", err is None, lambda: repr(err))
    if err is not None:
        return
    got, err = S.run(lambda: getattr(m, name))
    S.check("C20", f"{name} style is that of the first pair with this key", S.conj(err is None, got is want), lambda: (m, got, want, repr(err)))


def times_of(S, n):
    from fastkml.times import TimeSpan, TimeStamp
    k = S.choice(f"{n}.kind", ["none", "stamp", "span"])
    if k == "none":
        return None
    if k == "stamp":
        return TimeStamp(timestamp=S.opt(f"{n}.t", lambda: S.kdt(f"{n}.tv")))
    return TimeSpan(begin=S.opt(f"{n}.b", lambda: S.kdt(f"{n}.bv")), end=S.opt(f"{n}.e", lambda: S.kdt(f"{n}.ev")))


def timed(S):
    from fastkml.times import TimeSpan, TimeStamp
    q = S.params
    t = times_of(S, "t")
    o, err = S.run(resolve(q), times=t)
    S.check("C20", "can be made with a time", err is None, lambda: repr(err))
    if err is not None:
        return
    def look(what):
        t = o.times
        stamp, span = isinstance(t, TimeStamp), isinstance(t, TimeSpan)
        for a, want in (("time_stamp", t.timestamp if stamp else None), ("begin", t.begin if span else None), ("end", t.end if span else None)):
            got, err = S.run(lambda: getattr(o, a))
            S.check("C20", f"{a} {what}", err is None and got is want, lambda: (o.times, got, want, repr(err)))
    look("of a new object")
    S.check("C20 C17", "times as given", o.times is t)
    if isinstance(t, TimeStamp):
        t.timestamp = S.opt("t2", lambda: S.kdt("t2v"))
    elif isinstance(t, TimeSpan):
        t.begin = S.opt("b2", lambda: S.kdt("b2v"))
        t.end = S.opt("e2", lambda: S.kdt("e2v"))
    look("after a change of the time primitive")
    o.times = times_of(S, "u")
    look("after another time primitive was assigned")


def icons(S):
    from fastkml.links import Icon
    from fastkml.styles import IconStyle
    href = S.opt("href", lambda: S.text("hrefv"))
    icon = S.opt("icon", lambda: Icon(href=S.text("iconv", clean=True, nonempty=True)))
    kw = NSMODES[S.choice("mode", list(NSMODES))]
    o, err = S.run(IconStyle, icon=icon, icon_href=href, **kw)
    S.check("C20", "an icon style can be made", err is None, lambda: repr(err))
    if err is not None:
        return
    if icon is not None:
        S.check("C20", "an icon given explicitly wins", o.icon is icon)
        want = icon.href
    elif href is not None and S.yes(S.ne(S.strip(href), "")):
        want = S.strip(href)
        S.check("C20", "an address makes an icon", S.conj(type(o.icon) is Icon, S.eq(o.icon.href, want)))
        S.check("C20 C07", "in the style's namespace", S.eq(o.icon.ns, o.ns))
        S.check("C20 C07", "with the style's namespaces", o.icon.name_spaces == o.name_spaces)
    else:
        want = None
        S.check("C20", "no icon without an address", o.icon is None)
    got, err = S.run(lambda: o.icon_href)
    S.check("C20", "address of the icon", S.conj(err is None, S.eq(got, want)), lambda: (got, want))
    o.icon = S.opt("icon2", lambda: Icon(href=S.text("icon2v", clean=True, nonempty=True)))
    got, err = S.run(lambda: o.icon_href)
    S.check("C20", "follows a later change of the icon", S.conj(err is None, S.eq(got, o.icon.href if o.icon is not None else None)))
    if o.icon is not None:
        o.icon.href = S.text("icon3v", clean=True, nonempty=True)
        got, err = S.run(lambda: o.icon_href)
        S.check("C20", "follows a later change of the address", S.conj(err is None, S.eq(got, o.icon.href)))


def locations(S):
    from fastkml.model import Location, Model
    def coords(n):
        return {a: S.opt(f"{n}.{a}", lambda a=a: S.real(f"{n}.{a}v")) for a in ("longitude", "latitude", "altitude")}
    def agrees(o, c, what):
        g, err = S.run(lambda: o.geometry)
        S.check("C20", f"the geometry {what} can be asked for", err is None, lambda: repr(err))
        if c is None or c["longitude"] is None or c["latitude"] is None:
            S.check("C20", f"no geometry without a position {what}", g is None, lambda: (g, c))
            return
        w = tuple(x for x in (c["longitude"], c["latitude"], c["altitude"]) if x is not None)
        S.check("C20", f"a geometry with a position {what}", g is not None and g.geom_type == "Point", lambda: (g, c))
        S.check("C20", f"geometry is the current position {what}", S.eq(S.map(lambda x: x, g.coords), [w]), lambda: (g, c))
    c = coords("l")
    l = Location(**c)
    m = Model(location=S.opt("loc", lambda: l))
    agrees(l, c, "of a location")
    agrees(m, c if m.location is not None else None, "of a model")
    case = S.choice("change", ["all", "longitude", "latitude", "altitude", "other"])
    if case == "other":
        c2 = coords("m")
        m.location = Location(**c2)
        agrees(m, c2, "of the model after a change")
        m.location = None
        agrees(m, None, "of the model without location")
        return
    c2 = {k: S.opt(f"m.{k}", lambda k=k: S.real(f"m.{k}v")) if case in ("all", k) else v for k, v in c.items()}
    for k, v in c2.items():
        if case in ("all", k):
            setattr(l, k, v)
    agrees(l, c2, "after a change")
    agrees(m, c2 if m.location is not None else None, "of the model after a change of the location")


def held(S):
    """A placemark has the geometry of what it currently holds."""
    from fastkml.features import Placemark
    from .gen import GEOMS
    q1 = S.params
    a = S.child("a", q1)
    p, err = S.run(Placemark, kml_geometry=a)
    S.check("C20", "a placemark can hold a KML geometry", err is None, lambda: repr(err))
    if err is not None:
        return
    def agrees(k, what):
        g, err = S.run(lambda: p.geometry)
        w, err2 = S.run(lambda: k.geometry) if k is not None else (None, None)
        if k is not None and err2 is not None:
            S.check("C20", f"{what}: as the KML geometry itself", err is not None)
            return
        S.check("C20", f"{what}: can be asked for", err is None, lambda: repr(err))
        S.check("C20", what, S.eq(g, w) if S.symbolic else (g is None) == (w is None) and (g is None or g == w), lambda: (g, w))
    agrees(a, "geometry of the KML geometry it holds")
    b = S.child("b", S.choice("next", GEOMS))
    p.kml_geometry = b
    agrees(b, "follows a later change")
    p.kml_geometry = None
    agrees(None, "nothing without a KML geometry")
    p.kml_geometry = a
    agrees(a, "the first again")


def changed(S):
    """A KML geometry has the coordinates, boundaries or members it currently holds."""
    from fastkml import geometry as K
    kind = S.params
    p = None
    if kind in ("Point", "LineString", "LinearRing"):
        def coords(n):
            if kind == "Point":
                return [tuple(S.real(f"{n}.{i}") for i in range(3))]
            first = [(0.0, 1.0, 2.0), (1.0, 1.0, 2.0), (1.0, 2.0, 2.0)]
            return S.chain(S.chain(first, S.seq(n, lambda k: tuple(S.real(f"{k}.{i}") for i in range(3)))), [(5.0, 5.0, 2.0), first[0]])
        def agrees(c, what):
            g, err = S.run(lambda: o.geometry)
            S.check("C20", f"{what}: can be asked for", err is None, lambda: repr(err))
            if c is None:
                S.check("C20", what, g is None, lambda: g)
                return
            S.check("C20", what, g is not None, lambda: c)
            # the geometry library leaves out repeated positions
            S.check("C20", what, S.eq(S.map(lambda x: x, g.coords), S.map(lambda x: x, c)) if S.symbolic or kind == "Point"
                    else dropped(g.coords) == dropped(c), lambda: (g, c))
        one, two = coords("one"), coords("two")
        o = getattr(K, kind)(kml_coordinates=K.Coordinates(coords=one))
        agrees(one, "geometry of the coordinates")
        o.kml_coordinates.coords = two
        agrees(two, "follows a change of the coordinates")
        o.kml_coordinates = K.Coordinates(coords=one)
        agrees(one, "follows other coordinates")
        o.kml_coordinates = None
        agrees(None, "nothing without coordinates")
        return
    if kind == "Polygon":
        outer = [S.child(f"o{i}", "fastkml.geometry.OuterBoundaryIs", solid=True) for i in (1, 2)]
        inner = [S.seq(f"i{i}", lambda n: S.child(n, "fastkml.geometry.InnerBoundaryIs", solid=True)) for i in (1, 2)]
        def agrees(out, ins, what):
            g, err = S.run(lambda: o.geometry)
            S.check("C20", f"{what}: can be asked for", err is None, lambda: repr(err))
            if out is None:
                S.check("C20", what, g is None)
                return
            S.check("C20", f"{what}: outer ring", g is not None and S.eq(g.exterior, out.geometry) if S.symbolic else g.exterior == out.geometry)
            S.check("C20", f"{what}: inner rings", S.eq(S.map(lambda m: m, g.interiors), S.map(lambda m: m.geometry, ins)) if S.symbolic
                    else list(g.interiors) == [m.geometry for m in ins])
        o = K.Polygon(outer_boundary=outer[0], inner_boundaries=inner[0])
        agrees(outer[0], inner[0], "geometry of the boundaries")
        o.outer_boundary = outer[1]
        agrees(outer[1], inner[0], "follows another outer boundary")
        o.inner_boundaries = inner[1]
        agrees(outer[1], inner[1], "follows other inner boundaries")
        o.outer_boundary = None
        agrees(None, None, "nothing without an outer boundary")
        return
    ms = [S.seq(f"m{i}", lambda n: S.child(n, "fastkml.geometry.Point", solid=True), minlen=1) for i in (1, 2)]
    o = K.MultiGeometry(kml_geometries=ms[0])
    def agrees(want, what):
        g, err = S.run(lambda: o.geometry)
        S.check("C20", f"{what}: can be asked for", err is None, lambda: repr(err))
        if want is None:
            S.check("C20", what, g is None)
        elif S.symbolic:
            S.check("C20", what, S.conj(g is not None, S.eq(g.args[0], S.map(lambda m: m.geometry, want))))
        else:
            S.check("C20", what, list(g.geoms) == [m.geometry for m in want], lambda: (g, want))
    agrees(ms[0], "geometry of the members")
    o.kml_geometries = ms[1]
    agrees(ms[1], "follows other members")
    o.kml_geometries = S.chain(ms[0], ms[1])
    agrees(S.chain(ms[0], ms[1]), "follows more members")
    o.kml_geometries = []
    agrees(None, "nothing without members")


def dropped(coords):
    out = []
    for c in coords:
        if not out or tuple(c) != out[-1]:
            out.append(tuple(c))
    return out


def placemarks(S):
    from fastkml import geometry as K
    from fastkml.features import Placemark
    from .a_geometry import parts, returned, shape
    g = shape(S, "g")
    k = K.create_kml_geometry(g)
    p = S.choice("how", [lambda: Placemark(kml_geometry=k), lambda: Placemark(geometry=g)])()
    S.check("C20", "geometry of the KML geometry it holds", parts(p.geometry) == returned(g), lambda: (p.geometry, g))
    h = shape(S, "h")
    p.kml_geometry = K.create_kml_geometry(h)
    S.check("C20", "follows a later change", parts(p.geometry) == returned(h), lambda: (p.geometry, h))
    x = p.kml_geometry
    if hasattr(x, "kml_coordinates"):
        x.kml_coordinates = K.Coordinates(coords=list(shape(S, "i", type(x).__name__).coords))
        S.check("C20", "follows a change of the coordinates", tuple(p.geometry.coords) == tuple(x.kml_coordinates.coords), lambda: p.geometry)
        x.kml_coordinates = None
        S.check("C20", "nothing without coordinates", p.geometry is None)
    elif isinstance(x, K.MultiGeometry):
        x.kml_geometries = x.kml_geometries[:1]
        S.check("C20", "follows a change of the members", len(list(p.geometry.geoms)) == 1)
        x.kml_geometries.clear()
        S.check("C20", "nothing without members", p.geometry is None)
    else:
        x.inner_boundaries.clear()
        S.check("C20", "follows a change of the boundaries", not list(p.geometry.interiors))
        x.outer_boundary = None
        S.check("C20", "nothing without an outer boundary", p.geometry is None)
    p.kml_geometry = None
    S.check("C20", "nothing without a geometry", p.geometry is None)
    t = gen.obj(S, "t", S.choice("tk", ["fastkml.gx.Track", "fastkml.gx.MultiTrack"]), depth=1)
    p.kml_geometry = t
    r, err = S.run(lambda: p.geometry)
    w, err2 = S.run(lambda: t.geometry)
    S.check("C20", "geometry of a track", (err is None) == (err2 is None) and (err is not None or r == w), lambda: (r, w, err))


REGISTRY.append(Harness(style_maps, "derived:stylemap", ["C20"], (), mode="concrete", pool=600, why="sequences of changes; the general case is derived:firstpair"))
REGISTRY.append(Harness(first_pairs, "derived:firstpair", ["C20"], ("fastkml.styles.StyleMap.normal", "fastkml.styles.StyleMap.highlight"), cross=300, pool=400))
for q in TIMED:
    REGISTRY.append(Harness(timed, f"derived:times.{short(q)}", ["C20"], (), params=q, cross=60, pool=100))
REGISTRY.append(Harness(icons, "derived:icon", ["C07", "C20"], (), cross=300, pool=400))
REGISTRY.append(Harness(locations, "derived:location", ["C20"], (), cross=600, pool=600))
for q in gen.GEOMS:
    REGISTRY.append(Harness(held, f"derived:held.{short(q)}", ["C20"], ("fastkml.features.Placemark.geometry",), params=q, cross=40, pool=60))
for k in ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry"):
    REGISTRY.append(Harness(changed, f"derived:changed.{k}", ["C20"], (f"fastkml.geometry.{k}.geometry",), params=k, cross=60, pool=120))
REGISTRY.append(Harness(placemarks, "derived:placemark", ["C20"], (), mode="concrete", pool=500, why="geometry library"))
