"""Shared pieces of the specifications: the reference table, value domains,
the expected XML of an object and the expected result of reading a value.

Everything here is written against the properties, not against the code.
"""
from __future__ import annotations

import importlib
import sys

from .table import CLASSES, ENUMS, ROWS

KML = "{http://www.opengis.net/kml/2.2}"
ATOM = "{http://www.w3.org/2005/Atom}"
GX = "{http://www.google.com/kml/ext/2.2}"
STD = {"kml": KML, "atom": ATOM, "gx": GX}

# namespace configurations an object can be made with
NSMODES = {
    "default": {},
    "none": {"ns": ""},
    "own": {"ns": "{urn:own}"},
    "mapped": {"name_spaces": {"kml": "{urn:k}", "gx": "{urn:g}", "atom": "{urn:a}"}},
    "extra": {"name_spaces": {"foo": "{urn:foo}"}},
}


class Row:
    __slots__ = ("attr", "kind", "node", "nsids", "classes", "_default", "owner")

    def __init__(self, owner, t):
        self.owner = owner
        self.attr, self.kind, self.node, self.nsids, self.classes, self._default = t

    @property
    def default(self):
        d = self._default
        if isinstance(d, str) and d.startswith("@"):
            en, m = d[1:].split(".")
            return getattr(importlib.import_module("fastkml.enums"), en)[m]
        return d

    @property
    def enum(self):
        return resolve(self.classes[0])

    @property
    def members(self):
        """The values the schema allows, with the text of each."""
        cls = self.enum
        return [(getattr(cls, n, None), t) for n, t in ENUMS[cls.__name__].items()]

    @property
    def simple(self):
        return self.kind not in ("obj", "objlist")

    @property
    def is_attr(self):
        return self.kind in ("atext", "aint", "afloat", "aenum")

    def __repr__(self):
        return f"{self.owner}.{self.attr}"


def kml_text(m):
    """The text the schema gives to the member m of an enumeration."""
    return ENUMS.get(type(m).__name__, {}).get(m.name, m.value)


def resolve(q):
    if "+" in q:
        return extended(q)
    mod, name = q.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)


def rows_of(q):
    """Mapped attributes of a class in the order they have to be written."""
    out = []
    for c in reversed(CLASSES[q]["mro"]):
        out += [Row(c, t) for t in ROWS.get(c, [])]
    return out


def row_of(q, attr):
    for r in rows_of(q):
        if r.attr == attr:
            return r
    raise KeyError((q, attr))


PUBLIC = [q for q in CLASSES if not q.rsplit(".", 1)[1].startswith("_") and q != "fastkml.geometry.BoundaryIs"]


EXTENDED = {}


def extended(q):
    """A subclass of a public class with one mapping of its own (made by extend)."""
    if q not in EXTENDED:
        from fastkml.registry import registry
        p = resolve(q.split("+")[0])
        c = type(p.__name__, (p,), {"__module__": p.__module__, "__qualname__": q.rsplit(".", 1)[1]})
        registry.register(c, ITEMS[q]())
        EXTENDED[q] = c
    return EXTENDED[q]


ITEMS = {}


def extend(parent, name, row, item):
    """The reference table of such a subclass."""
    q = f"{parent}+{name}"
    CLASSES[q] = {**CLASSES[parent], "mro": [q, *CLASSES[parent]["mro"]]}
    ROWS[q] = [row]
    ITEMS[q] = item
    return q


def short(q):
    return q[len("fastkml."):]


def required(q):
    """Arguments without which the class cannot be built."""
    return {"id": "i"} if q.split("+")[0] == "fastkml.data.Schema" else {}


def spaces(mode):
    return {**STD, **NSMODES[mode].get("name_spaces", {})}


def own_ns(q, mode):
    m = NSMODES[mode]
    if "ns" in m:
        return m["ns"]
    return spaces(mode).get(CLASSES[q]["nsid"], "")


# -- values -----------------------------------------------------------------


def value(S, name, row, q=None):
    """An arbitrary value of the row's type."""
    k = row.kind
    if k in ("text", "ntext", "atext"):
        return S.text(name)
    if k == "bool":
        return S.bool(name)
    if k in ("int", "aint"):
        return S.int(name)
    if k in ("float", "afloat"):
        return S.real(name)
    if k in ("enum", "aenum"):
        return S.enum(name, row.enum)
    if k == "dt":
        return S.kdt(name)
    raise AssertionError(k)


VERBATIM = {"id", "target_id"}


def stored(S, row, v, q=None):
    """What the constructor has to store for the argument v."""
    if v is None:
        return "" if row.attr in VERBATIM and q != "fastkml.data.Schema" else None
    if row.kind in ("text", "ntext", "atext"):
        if row.attr in VERBATIM and q != "fastkml.data.Schema":
            return v
        t = S.strip(v)
        return t if S.truth(S.ne(t, "")) else None
    return v


def effective(S, v, default, verbosity):
    """The value that has to be written, or None."""
    if v is None and default is not None and verbosity == "verbose":
        return default
    if v is not None and default is not None and verbosity == "terse" and S.yes(S.pyeq(v, default)):
        return None
    return v


def number(S, v):
    return S.str(v)


def row_ns(row, v, ns, sp):
    """Namespace a simple child is written in."""
    if row.kind == "dt":
        return sp.get("kml", "")
    if row.kind == "enum" and type(v).__name__ == "AltitudeMode":
        return sp.get("gx" if kml_text(v).endswith("SeaFloor") else "kml", "")
    return ns


def text_form(S, row, v):
    k = row.kind
    if k in ("text", "ntext", "atext"):
        return v
    if k == "bool":
        return "1" if S.yes(v) else "0"
    if k in ("enum", "aenum"):
        return kml_text(v)
    return S.str(v)


def write_simple(S, row, v, ns, sp, verbosity, out):
    """Add what the row contributes to out = dict(text, attrs, children)."""
    v = effective(S, v, row.default, verbosity)
    if v is None:
        return
    if row.kind in ("text", "ntext", "atext") and not S.yes(S.ne(v, "")):
        return
    t = text_form(S, row, v)
    if row.kind == "ntext":
        out["text"] = t
    elif row.is_attr:
        out["attrs"][row.node] = t
    else:
        out["children"].append(S.el(row_ns(row, v, ns, sp) + row.node, text=t))


# -- emptiness --------------------------------------------------------------


def _set(o, *names):
    out = []
    for n in names:
        v = getattr(o, n, None)
        out.append((v.force() if hasattr(type(v), "force") else v) is not None)
    return out


def _any(f, xs):
    core = sys.modules.get("vf.core")
    if core is not None and core.Ctx.cur is not None:
        from vf import seq
        return seq.quantify("any", xs, f, "any")
    return any(f(x) for x in xs)


def _filter(f, xs):
    core = sys.modules.get("vf.core")
    if core is not None and core.Ctx.cur is not None:
        from vf import seq
        l = seq.SList(loc="spec:filter")
        for x in seq.viter(xs, "spec:filter"):
            if f(x):
                l.append(x)
        return l
    return [x for x in xs if f(x)]


def _some(v):
    return bool(v)


NONEMPTY = {
    "views.LatLonAltBox": lambda o: all(_set(o, "north", "south", "east", "west")),
    "overlays.LatLonBox": lambda o: all(_set(o, "north", "south", "east", "west")),
    "views.Lod": lambda o: all(_set(o, "min_lod_pixels")),
    "views.Region": lambda o: nonempty(o.lat_lon_alt_box),
    "styles.StyleUrl": lambda o: all(_set(o, "url")),
    "styles.IconStyle": lambda o: nonempty(o.icon),
    "styles.LineStyle": lambda o: any(_set(o, "width", "color", "color_mode")),
    "styles.PolyStyle": lambda o: any(_set(o, "fill", "outline", "color", "color_mode")),
    "styles.LabelStyle": lambda o: any(_set(o, "scale", "color", "color_mode")),
    "styles.BalloonStyle": lambda o: any(_set(o, "bg_color", "text_color", "text", "display_mode")),
    "styles.Style": lambda o: _any(nonempty, o.styles),
    "styles.Pair": lambda o: all(_set(o, "key", "style")),
    "styles.StyleMap": lambda o: _some(o.pairs),
    "data.SimpleField": lambda o: all(_set(o, "name", "type_")),
    "data.Data": lambda o: all(_set(o, "name", "value")),
    "data.SimpleData": lambda o: all(_set(o, "name", "value")),
    "data.SchemaData": lambda o: _some(o.data) and all(_set(o, "schema_url")),
    "data.ExtendedData": lambda o: _some(o.elements),
    "model.Location": lambda o: all(_set(o, "latitude", "longitude")),
    "model.Orientation": lambda o: any(_set(o, "heading", "tilt", "roll")),
    "model.Scale": lambda o: any(_set(o, "x", "y", "z")),
    "model.Alias": lambda o: any(_set(o, "target_href", "source_href")),
    "model.ResourceMap": lambda o: _some(o.aliases),
    "model.Model": lambda o: nonempty(o.link) and nonempty(o.location),
    "times.TimeStamp": lambda o: all(_set(o, "timestamp")),
    "times.TimeSpan": lambda o: any(_set(o, "begin", "end")),
    "geometry.Coordinates": lambda o: _some(o.coords),
    "gx.Track": lambda o: _some(o.track_items),
    "gx.MultiTrack": lambda o: _some(o.tracks),
    "features.NetworkLink": lambda o: nonempty(o.link),
    "features.Snippet": lambda o: all(_set(o, "text")),
    "overlays.ViewVolume": lambda o: all(_set(o, "left_fov", "right_fov", "bottom_fov", "top_fov", "near")),
    "overlays.ImagePyramid": lambda o: all(_set(o, "max_width", "max_height")),
    "overlays.OverlayXY": lambda o: all(_set(o, "x", "y")),
    "overlays.ScreenXY": lambda o: all(_set(o, "x", "y")),
    "overlays.RotationXY": lambda o: all(_set(o, "x", "y")),
    "overlays.Size": lambda o: all(_set(o, "x", "y")),
    "geometry.Point": lambda o: geometry_ok(o, 1),
    "geometry.LineString": lambda o: geometry_ok(o, 2),
    "geometry.LinearRing": lambda o: geometry_ok(o, 2),
    "geometry.OuterBoundaryIs": lambda o: nonempty(o.kml_geometry),
    "geometry.InnerBoundaryIs": lambda o: nonempty(o.kml_geometry),
    "geometry.Polygon": lambda o: nonempty(o.outer_boundary),
    "geometry.MultiGeometry": lambda o: _some(_filter(nonempty, o.kml_geometries)),
    "links.Link": lambda o: all(_set(o, "href")),
    "links.Icon": lambda o: all(_set(o, "href")),
    "atom.Link": lambda o: all(_set(o, "href")),
    "atom.Author": lambda o: all(_set(o, "name")),
    "atom.Contributor": lambda o: all(_set(o, "name")),
}


def qname(o):
    t = getattr(type(o), "_vf_for", type(o))
    return f"{t.__module__}.{t.__qualname__}"


def geometry_ok(o, least):
    """Enough positions for the geometry (two or three dimensions)."""
    c = o.kml_coordinates
    return nonempty(c) and bool(c.coords)


def nonempty(o):
    """Does the object have what its KML element requires?"""
    if hasattr(type(o), "force"):
        o = o.force()
    if o is None:
        return False
    if hasattr(o, "_vf_nonempty"):
        return o._vf_nonempty()
    f = NONEMPTY.get(short(qname(o)).split("+")[0])
    return f(o) if f else True
