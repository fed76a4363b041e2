"""Arbitrary objects of every public class (concrete runs)."""
from __future__ import annotations

import datetime as dtm

from vf.harness import twin

from .base import CLASSES, PUBLIC, NSMODES, resolve, row_of, rows_of, short, value

GEOMS = ("fastkml.geometry.Point", "fastkml.geometry.LineString", "fastkml.geometry.LinearRing",
         "fastkml.geometry.Polygon", "fastkml.geometry.MultiGeometry")


def position(S, n, dim):
    return tuple(S.real(f"{n}.{i}") for i in range(dim))


def positions(S, name, least=1, dim=None):
    dim = dim or S.choice(f"{name}.dim", [2, 3])
    n = max(least, S.int(f"{name}.n", 0, 6))
    return [position(S, f"{name}[{k}]", dim) for k in range(n)]


def kdt(S, name, resolution=None):
    from fastkml.enums import DateTimeResolution as R
    from fastkml.times import KmlDateTime
    res = resolution or S.choice(f"{name}.res", list(R))
    y = S.int(f"{name}.y", 1, 9999)
    mo = S.int(f"{name}.m", 1, 12)
    d = S.int(f"{name}.d", 1, 28)
    if res is R.datetime:
        off = S.choice(f"{name}.off", [0, 60, -60, 330, -570, 839, -839, 5, 45])
        tz = dtm.timezone(dtm.timedelta(minutes=off))
        y = min(max(y, 2), 9998)
        return KmlDateTime(dtm.datetime(y, mo, d, S.int(f"{name}.H", 0, 23), S.int(f"{name}.M", 0, 59),
                                        S.int(f"{name}.S", 0, 59),
                                        S.choice(f"{name}.us", [0, 0, 1, 500000, 123456, 100, 999999]), tz), res)
    if S.bool(f"{name}.fromdt") and res is not R.datetime:
        return KmlDateTime(dtm.datetime(y, mo, d, 5, 6, 7, tzinfo=dtm.timezone.utc), res)
    return KmlDateTime(dtm.date(y, mo, d), res)


def clean_text(S, name):
    return S.text(name, clean=True, nonempty=True)


def obj(S, name, q, mode="default", depth=2, full=False, solid=True, set_prob=None, mark=None, hollow=False):
    """An object of class q; ``solid``: with content (not empty); ``hollow``: parts may be empty."""
    if hollow:
        solid = S.bool(f"{name}?solid")
    cls = resolve(q)
    kw = dict(NSMODES[mode])
    s = short(q)

    def has(a):
        return full or S.bool(f"{name}.{a}?set")

    def child(a, cq, d=depth - 1, **k):
        return obj(S, f"{name}.{a}", cq, mode, d, full=full and d > 0, hollow=hollow, **k)

    if s == "geometry.Coordinates":
        n = S.choice(f"{name}.cl", [1, 2, 3, 5])
        return cls(coords=positions(S, f"{name}.c", n), **kw)
    if s in ("geometry.Point", "geometry.LineString", "geometry.LinearRing"):
        for a in ("id", "target_id"):
            if has(a):
                kw[a] = clean_text(S, f"{name}.{a}")
        for r in rows_of(q):
            if r.kind in ("bool", "enum") and has(r.attr):
                kw[r.attr] = value(S, f"{name}.{r.attr}", r)
        dim = S.choice(f"{name}.dim", [2, 3])
        if s == "geometry.Point":
            pts = [position(S, f"{name}.p", dim)]
        elif s == "geometry.LineString":
            pts = distinct(S, positions(S, f"{name}.p", 2, dim))
        else:
            pts = distinct(S, positions(S, f"{name}.p", 3, dim))
            pts = pts + [pts[0]]
        C = resolve("fastkml.geometry.Coordinates")
        kw["kml_coordinates"] = C(coords=pts, **NSMODES[mode])
        return cls(**kw)
    if s in ("geometry.OuterBoundaryIs", "geometry.InnerBoundaryIs"):
        return cls(kml_geometry=obj(S, f"{name}.ring", "fastkml.geometry.LinearRing", mode, depth - 1,
                                    set_prob=0), **kw)
    if s == "geometry.Polygon":
        for a in ("id", "target_id"):
            if has(a):
                kw[a] = clean_text(S, f"{name}.{a}")
        for r in rows_of(q):
            if r.kind in ("bool", "enum") and has(r.attr):
                kw[r.attr] = value(S, f"{name}.{r.attr}", r)
        kw["outer_boundary"] = child("outer", "fastkml.geometry.OuterBoundaryIs")
        n = S.int(f"{name}.holes", 0, 3)
        kw["inner_boundaries"] = [child(f"hole{k}", "fastkml.geometry.InnerBoundaryIs") for k in range(n)]
        return cls(**kw)
    if s == "geometry.MultiGeometry":
        if has("id"):
            kw["id"] = clean_text(S, f"{name}.id")
        n = max(1, S.int(f"{name}.n", 0, 4))
        kinds = [S.choice(f"{name}.k{k}", GEOMS if depth > 0 else GEOMS[:4]) for k in range(n)]
        kw["kml_geometries"] = [child(f"g{k}", c) for k, c in enumerate(kinds)]
        return cls(**kw)
    if s == "gx.Track":
        return track(S, name, cls, kw, has, child)
    if s == "gx.MultiTrack":
        if has("id"):
            kw["id"] = clean_text(S, f"{name}.id")
        for a in ("altitude_mode", "interpolate"):
            if has(a):
                kw[a] = value(S, f"{name}.{a}", row_of(q, a))
        n = max(1, S.int(f"{name}.n", 0, 3))
        kw["tracks"] = [child(f"t{k}", "fastkml.gx.Track") for k in range(n)]
        return cls(**kw)

    must = MUST.get(s, ()) if solid else ()
    for r in rows_of(q):
        a = r.attr
        if not (a in must or (q == "fastkml.data.Schema" and a == "id") or has(a)):
            continue
        if r.kind in ("obj", "objlist"):
            if depth <= 0 and a not in must:
                continue
            cs = [c for c in r.classes if c in CLASSES]
            if depth <= 1:
                cs = [c for c in cs if short(c) not in ("containers.Document", "containers.Folder")] or cs
            if r.kind == "obj":
                kw[a] = child(a, S.choice(f"{name}.{a}.cls", cs))
            else:
                n = S.choice(f"{name}.{a}.n", [1, 1, 2, 3])
                kw[a] = [child(f"{a}{k}", S.choice(f"{name}.{a}{k}.cls", cs)) for k in range(n)]
                if n > 1 and S.choice(f"{name}.{a}.twin", [0, 0, 0, 1]):
                    kw[a][-1] = twin(kw[a][0])
        elif r.kind == "dt":
            kw[a] = kdt(S, f"{name}.{a}")
        elif r.kind in ("text", "ntext", "atext"):
            kw[a] = clean_text(S, f"{name}.{a}")
        else:
            kw[a] = value(S, f"{name}.{a}", r)
    if s in ANY_OF and solid and not any(a in kw for a in ANY_OF[s]):
        a = S.choice(f"{name}.any", ANY_OF[s])
        r = row_of(q, a)
        if r.kind == "dt":
            kw[a] = kdt(S, f"{name}.{a}")
        elif r.kind == "text":
            kw[a] = clean_text(S, f"{name}.{a}")
        else:
            kw[a] = value(S, f"{name}.{a}", r)
    if s in ("links.Link", "links.Icon", "styles.IconStyle", "overlays._Overlay"):
        pass
    return cls(**kw)


MUST = {
    "views.LatLonAltBox": ("north", "south", "east", "west"), "overlays.LatLonBox": ("north", "south", "east", "west"),
    "views.Lod": ("min_lod_pixels",), "views.Region": ("lat_lon_alt_box",), "styles.StyleUrl": ("url",),
    "styles.IconStyle": ("icon",), "styles.Style": ("styles",), "styles.Pair": ("key", "style"),
    "styles.StyleMap": ("pairs",), "data.SimpleField": ("name", "type_"), "data.Data": ("name", "value"),
    "data.SimpleData": ("name", "value"), "data.SchemaData": ("data", "schema_url"), "data.ExtendedData": ("elements",),
    "model.Location": ("latitude", "longitude"), "model.ResourceMap": ("aliases",), "model.Model": ("link", "location"),
    "times.TimeStamp": ("timestamp",), "features.NetworkLink": ("link",), "features.Snippet": ("text",),
    "links.Link": ("href",), "links.Icon": ("href",), "atom.Link": ("href",), "atom.Author": ("name",),
    "atom.Contributor": ("name",), "overlays.ViewVolume": ("left_fov", "right_fov", "bottom_fov", "top_fov", "near"),
    "overlays.ImagePyramid": ("max_width", "max_height"), "overlays.OverlayXY": ("x", "y"),
    "overlays.ScreenXY": ("x", "y"), "overlays.RotationXY": ("x", "y"), "overlays.Size": ("x", "y"),
}
ANY_OF = {
    "styles.LineStyle": ("width", "color", "color_mode"), "styles.PolyStyle": ("fill", "outline", "color", "color_mode"),
    "styles.LabelStyle": ("scale", "color", "color_mode"),
    "styles.BalloonStyle": ("bg_color", "text_color", "text", "display_mode"),
    "model.Orientation": ("heading", "tilt", "roll"), "model.Scale": ("x", "y", "z"),
    "model.Alias": ("target_href", "source_href"), "times.TimeSpan": ("begin", "end"),
}


def distinct(S, pts):
    """Neighbouring positions differ (the geometry library drops repetitions)."""
    out = []
    for i, p in enumerate(pts):
        if out and p == out[-1]:
            p = (p[0] + 1.5 + i,) + p[1:]
        out.append(p)
    if len(out) > 1 and out[0] == out[-1]:
        out[-1] = (out[-1][0] + 7.25,) + out[-1][1:]
        if len(out) > 1 and out[-1] == out[-2]:
            out[-1] = (out[-1][0] + 9.5,) + out[-1][1:]
    return out


def track_items(S, name, n, angles=None):
    from pygeoif.geometry import Point
    gx = __import__("fastkml.gx", fromlist=["x"])
    dim = S.choice(f"{name}.dim", [2, 3])
    items = []
    for k in range(n):
        ang = None
        if angles is True or (angles is None and S.bool(f"{name}.{k}.angle?set")):
            ang = gx.Angle(*position(S, f"{name}.{k}.ang", 3))
        items.append(gx.TrackItem(when=kdt(S, f"{name}.{k}.when"), coord=Point(*position(S, f"{name}.{k}.p", dim)),
                                  angle=ang))
    return items


def track(S, name, cls, kw, has, child):
    for a in ("id", "target_id"):
        if has(a):
            kw[a] = clean_text(S, f"{name}.{a}")
    if has("altitude_mode"):
        kw["altitude_mode"] = value(S, f"{name}.am", row_of("fastkml.gx.Track", "altitude_mode"))
    n = max(1, S.int(f"{name}.n", 0, 4))
    kw["track_items"] = track_items(S, f"{name}.items", n, True)
    if has("extended_data"):
        kw["extended_data"] = child("ed", "fastkml.data.ExtendedData")
    return cls(**kw)
