"""C13: tracks (and C03 for malformed samples)."""
from __future__ import annotations

from vf.harness import Harness, REGISTRY

from . import compare, gen

GXQ = "{http://www.google.com/kml/ext/2.2}"


def gx():
    import fastkml.gx as m
    return m


def lists(S, n, dim, angles):
    whens = [gen.kdt(S, f"w{k}") for k in range(n)]
    coords = [gen.position(S, f"c{k}", dim) for k in range(n)]
    ang = [gen.position(S, f"a{k}", 3) for k in range(n)] if angles else None
    return whens, coords, ang


def iterable(S, name, l):
    return {"list": list, "tuple": tuple, "iter": iter}[S.choice(name, ["list", "tuple", "iter"])](l)


def building(S):
    g = gx()
    n = S.choice("n", [1, 1, 2, 3, 5, 9])
    dim = S.choice("dim", [2, 3])
    angles = S.bool("angles")
    whens, coords, ang = lists(S, n, dim, angles)
    kw = {"whens": iterable(S, "iw", whens), "coords": iterable(S, "ic", coords)}
    if ang is not None:
        kw["angles"] = iterable(S, "ia", ang)
    t, err = S.run(g.Track, **kw)
    S.check("C13", "a track can be made of equally long sequences", err is None, lambda: repr(err))
    items = t.track_items
    S.check("C13", "one sample per index", len(items) == n, lambda: (n, items))
    for k, i in enumerate(items):
        S.check("C13", "time of the sample", i.when is whens[k] or i.when == whens[k], lambda: (k, i))
        S.check("C13", "position of the sample", tuple(i.coord.coords[0]) == tuple(coords[k]), lambda: (k, i))
        want = tuple(ang[k]) if ang is not None else (0.0, 0.0, 0.0)
        S.check("C13", "orientation of the sample", i.angle is None and ang is None or i.angle.coords == want, lambda: (k, i))
    S.check("C13", "times, positions and orientations", t.whens == tuple(whens) and t.coords == tuple(coords)
            and (ang is None or t.angles == tuple(ang)), lambda: (t.whens, t.coords, t.angles))
    written(S, t, whens, coords, [tuple(a) for a in ang] if ang else None)
    S.check("C13", "geometry of the track", n < 2 or tuple(t.geometry.coords) == dedup(coords), lambda: (t.geometry, coords))


def dedup(cs):
    out = []
    for c in cs:
        if not out or tuple(c) != out[-1]:
            out.append(tuple(c))
    return tuple(out)


def written(S, t, whens, coords, angles, unspecified=False):
    e, err = S.run(t.etree_element)
    S.check("C13", "the track is written", err is None, lambda: repr(err))
    kids = [(c.tag, c.text) for c in e if c.tag.rsplit("}")[-1] in ("when", "coord", "angles")]
    ks = "{http://www.opengis.net/kml/2.2}"
    w = [x for tag, x in kids if tag == ks + "when"]
    c = [x for tag, x in kids if tag == GXQ + "coord"]
    a = [x for tag, x in kids if tag == GXQ + "angles"]
    S.check("C13", "only such samples", len(w) + len(c) + len(a) == len(kids), lambda: kids)
    S.check("C13", "one time per sample, in order", w == [str(x) for x in whens], lambda: (kids, whens))
    S.check("C13", "one position per sample, in order", c == [" ".join(str(v) for v in x) for x in coords], lambda: (kids, coords))
    if angles is not None:
        S.check("C13", "one orientation per sample, in order", a == [" ".join(str(v) for v in x) for x in angles], lambda: (kids, angles))
    elif not unspecified:
        S.check("C13", "one orientation per sample or none", a == [] or a == ["0.0 0.0 0.0"] * len(whens), lambda: kids)
    return e


def samples(S):
    """Samples with and without orientation, written and read."""
    g = gx()
    n = S.choice("n", [1, 2, 3, 5])
    items = gen.track_items(S, "t", n)
    t, err = S.run(g.Track, track_items=iterable(S, "i", items))
    S.check("C13", "a track can be made of samples", err is None and list(t.track_items) == items, lambda: (items, repr(err)))
    some = any(i.angle is not None for i in items)
    ang = [(i.angle.coords if i.angle is not None else (0.0, 0.0, 0.0)) for i in items] if some else None
    whens, coords = [i.when for i in items], [tuple(i.coord.coords[0]) for i in items]
    e = written(S, t, whens, coords, ang)
    if not some:
        S.check("C13", "no orientation without one", not [c for c in e if c.tag.endswith("angles")])
    for strict in (True, False):
        back, err = S.run(g.Track.class_from_element, ns=GXQ, name_spaces=None, element=e, strict=strict)
        S.check("C13", "the track is read", err is None, lambda: repr(err))
        S.check("C13", "same number of samples", len(back.track_items) == n, lambda: back)
        for k, i in enumerate(back.track_items):
            S.check("C13", "same time", i.when == whens[k], lambda: (k, i))
            S.check("C13", "same position", tuple(i.coord.coords[0]) == coords[k], lambda: (k, i))
            S.check("C13", "same orientation, zero when missing", (i.angle or g.Angle()).coords == (ang[k] if ang else (0.0, 0.0, 0.0)), lambda: (k, i))
    S.check("C19", "a track with samples has content", bool(t) is True)


def refusing(S):
    """Samples and sequences together are refused."""
    g = gx()
    n = S.choice("n", [1, 2, 3])
    items = gen.track_items(S, "t", n)
    whens, coords, ang = lists(S, n, 2, True)
    which = S.choice("which", ["both", "whens", "coords"])
    kw = {"whens": whens, "coords": coords, "angles": ang}
    if which != "both":
        kw = {which: kw[which]}
    t, err = S.run(g.Track, track_items=items, **kw)
    S.check("C13", "samples together with sequences are refused", isinstance(err, ValueError), lambda: (which, t, repr(err)))


def multi(S):
    """A multi-track keeps exactly its non-empty tracks, in order."""
    g = gx()
    n = S.choice("n", [0, 1, 2, 3, 6])
    ts = []
    for k in range(n):
        if S.bool(f"empty{k}"):
            ts.append(g.Track(id=f"e{k}"))
        else:
            ts.append(g.Track(track_items=gen.track_items(S, f"t{k}", S.choice(f"n{k}", [1, 2, 3]), True)))
    m, err = S.run(g.MultiTrack, tracks=iterable(S, "i", ts), interpolate=S.choice("ip", [None, True, False]))
    S.check("C13", "a multi-track can be made", err is None, lambda: repr(err))
    want = [t for t in ts if t.track_items]
    S.check("C13 C17", "exactly the non-empty tracks, in order", len(m.tracks) == len(want) and all(a is b for a, b in zip(m.tracks, want)),
            lambda: (ts, m.tracks))
    e, err = S.run(m.etree_element)
    S.check("C13", "the multi-track is written", err is None, lambda: repr(err))
    back, err = S.run(g.MultiTrack.class_from_element, ns=GXQ, name_spaces=None, element=e, strict=True)
    S.check("C13", "and read", err is None, lambda: repr(err))
    S.check("C13", "with the same tracks", [list(map(str, t.whens)) for t in back.tracks] == [list(map(str, t.whens)) for t in want]
            and [t.coords for t in back.tracks] == [t.coords for t in want] and [t.angles for t in back.tracks] == [t.angles for t in want],
            lambda: (m, back))
    lines = [t for t in want if len(dedup(t.coords)) > 1]
    if lines and len(lines) == len(want):
        S.check("C13", "geometry of the multi-track", [tuple(l.coords) for l in m.geometry.geoms] == [dedup(t.coords) for t in lines], lambda: m.geometry)


def text_trip(S):
    """A track written by hand, in any order of kinds and any whitespace."""
    g = gx()
    r = S.src.r
    n = S.choice("n", [1, 2, 4])
    angles = S.bool("angles")
    dim = S.choice("dim", [2, 3])
    whens, coords, ang = lists(S, n, dim, angles)
    sp = lambda s: r.choice(["", " ", "\n  "]) + s + r.choice(["", " ", "\n"])  # noqa: E731
    w = [f"<when>{sp(str(x))}</when>" for x in whens]
    c = [f"<gx:coord>{sp(r.choice([' ', '  ']).join(repr(v) for v in x))}</gx:coord>" for x in coords]
    a = [f"<gx:angles>{sp(' '.join(repr(v) for v in x))}</gx:angles>" for x in ang] if ang else []
    how = S.choice("how", ["grouped", "interleaved", "reordered"])
    if how == "grouped":
        kids = w + c + a
    elif how == "reordered":
        kids = a + c + w
    else:
        kids = [x for t in zip(w, c, *([a] if a else [])) for x in t]
    text = ('<gx:Track xmlns="http://www.opengis.net/kml/2.2" xmlns:gx="http://www.google.com/kml/ext/2.2">' + "".join(kids) + "</gx:Track>")
    t, err = S.run(g.Track.from_string, text, strict=S.bool("strict"))
    S.check("C13", "the track is read", err is None, lambda: (text, repr(err)))
    S.check("C13", "with the same samples", t.whens == tuple(whens) and t.coords == tuple(tuple(x) for x in coords)
            and (not ang or t.angles == tuple(tuple(x) for x in ang)), lambda: (text, t))


def bad_track(S):
    """C03: malformed sample text in strict mode."""
    from fastkml.exceptions import KMLParseError
    g = gx()
    n = S.choice("n", [1, 2, 3])
    whens, coords, ang = lists(S, n, 3, True)
    w = [str(x) for x in whens]
    c = [" ".join(repr(v) for v in x) for x in coords]
    a = [" ".join(repr(v) for v in x) for x in ang]
    k = S.int("k", 0, n - 1)
    which = S.choice("which", ["when", "coord", "angles"])
    if which == "when":
        w[k] = S.choice("bad", ["yesterday", "2000-13", "2000-02-30", "x"])
    elif which == "coord":
        c[k] = S.choice("bad", ["x", "1 x", "1 2 three", "1;2", "1,2,3"])
    else:
        a[k] = S.choice("bad", ["x", "1 x 2", "north", "1,2,3"])
    text = ('<gx:Track xmlns="http://www.opengis.net/kml/2.2" xmlns:gx="http://www.google.com/kml/ext/2.2">'
            + "".join(f"<when>{x}</when>" for x in w) + "".join(f"<gx:coord>{x}</gx:coord>" for x in c)
            + "".join(f"<gx:angles>{x}</gx:angles>" for x in a) + "</gx:Track>")
    t, err = S.run(g.Track.from_string, text, strict=True)
    S.check("C03", "strict reading of a malformed sample raises the parse error", isinstance(err, KMLParseError), lambda: (text, repr(err), t))


def lax_track(S):
    """C03: malformed samples vanish in lax mode, all the others stay."""
    g = gx()
    n = S.choice("n", [2, 3, 4, 6])
    bad = S.choice("nbad", [1, 1, 2]) if n > 2 else 1
    whens, coords, ang = lists(S, n, 3, S.bool("angles"))
    r = S.src.r
    wb, cb = (set(r.sample(range(n), bad)) for _ in range(2))
    w = [r.choice(["yesterday", "2000-13", "x"]) if k in wb else str(x) for k, x in enumerate(whens)]
    c = [r.choice(["x", "1 x", "1 2 three"]) if k in cb else " ".join(repr(v) for v in x) for k, x in enumerate(coords)]
    gw = [x for k, x in enumerate(whens) if k not in wb]
    gc = [tuple(x) for k, x in enumerate(coords) if k not in cb]
    ga = None
    a = []
    if ang:
        ga = [tuple(x) for x in ang[:n - bad]]
        a = [" ".join(repr(v) for v in x) for x in ga]
        for _ in range(r.choice([0, 1, 2])):
            a.insert(r.randrange(len(a) + 1), r.choice(["x", "1 x 2"]))
    text = ('<gx:Track xmlns="http://www.opengis.net/kml/2.2" xmlns:gx="http://www.google.com/kml/ext/2.2">'
            + "".join(f"<when>{x}</when>" for x in w) + "".join(f"<gx:coord>{x}</gx:coord>" for x in c)
            + "".join(f"<gx:angles>{x}</gx:angles>" for x in a) + "</gx:Track>")
    S.record["text"] = text
    t, err = S.run(g.Track.from_string, text, strict=False)
    S.check("C03", "lax reading of malformed samples succeeds", err is None, lambda: (text, repr(err)))
    S.check("C03", "all other times", list(t.whens) == gw, lambda: (text, t))
    S.check("C03", "all other positions", list(t.coords) == gc, lambda: (text, t))
    S.check("C03", "all other orientations", ga is None or list(t.angles) == ga, lambda: (text, t))


# ---------------------------------------------------------------------------
# for all samples

KMLQ = "{http://www.opengis.net/kml/2.2}"
PROPS = "C01 C02 C04 C13 C18"


def sample_seq(S, name, dim, angle, minlen=0):
    """A sequence of (time, position, orientation)."""
    def make(n):
        w = S.kdt(f"{n}.when")
        p = gen.position(S, f"{n}.pos", dim)
        a = None
        if angle == "all":
            a = gen.position(S, f"{n}.ang", 3)
        elif angle == "some":
            a = S.lazy(f"{n}.ang", lambda: gen.position(S, f"{n}.ang", 3))
        return (w, p, a)
    return S.seq(name, make, minlen=minlen)


def wanted(S, s, precision, some, default=(0.0, 0.0, 0.0)):
    """The elements of the samples: times, positions, orientations."""
    num = (lambda v: S.str(v)) if precision is None else (lambda v: S.fmt(v, precision))  # noqa: E731
    out = S.map(lambda x: S.el(KMLQ + "when", text=S.str(x[0])), s)
    out = S.chain(out, S.map(lambda x: S.el(GXQ + "coord", text=S.join(" ", [num(v) for v in x[1]])), s))
    if some:
        out = S.chain(out, S.map(lambda x: S.el(GXQ + "angles", text=S.join(" ", [num(v) for v in (x[2] or default)])), s))
    return out


def same_samples(S, t, s, props, label):
    S.check(props, f"{label}: one time per sample, in order", S.eq(S.map(lambda i: i.when, t.track_items), S.map(lambda x: x[0], s)))
    S.check(props, f"{label}: the position of every sample", S.eq(S.map(lambda i: tuple(i.coord.coords[0]), t.track_items), S.map(lambda x: x[1], s)))
    S.check(props, f"{label}: the orientation of every sample, zero when missing",
            S.eq(S.map(lambda i: (i.angle or gx().Angle()).coords, t.track_items), S.map(lambda x: x[2] or (0.0, 0.0, 0.0), s)))


def track_all(S):
    g = gx()
    how, angle, level, precision = S.params
    dim = S.choice("dim", [2, 3])
    s = sample_seq(S, "s", dim, angle)
    if how == "lists":
        kw = {"whens": S.map(lambda x: x[0], s), "coords": S.map(lambda x: x[1], s)}
        if angle == "all":
            kw["angles"] = S.map(lambda x: x[2], s)
        some = bool(angle == "all")
    else:
        kw = {"track_items": S.map(lambda x: g.TrackItem(when=x[0], coord=point(S, x[1]), angle=None if S.is_none(x[2]) else g.Angle(*x[2])), s)}
        some = angle == "all"
        if angle == "some":
            with S.side("spec"):
                some = any_of(S, lambda x: not S.is_none(x[2]), s)
    t, err = S.run(g.Track, **kw)
    S.check("C13", "a track can be made", err is None, lambda: repr(err))
    same_samples(S, t, s, "C13", "built")
    if how == "lists" and angle == "none":
        with S.side("spec"):
            some = any_of(S, lambda x: True, s)
    kwl = {"verbosity": base_level(level)} if level else {}
    e, err = S.run(t.etree_element, precision=precision, **kwl)
    S.check(PROPS, "writing succeeds", err is None, lambda: repr(err))
    with S.side("spec"):
        kids = wanted(S, s, precision, some)
        x = S.el(GXQ + "Track", attrs={}, children=S.chain(mode_el(S, level), kids))
    S.check(PROPS, f"one time, position and orientation per sample, in order ({level or 'normal'}, precision {precision})", S.tree_eq(e, x),
            lambda: S.show(e, x))
    if precision is None and S.prop in (None, "C01", "C02", "C13"):
        for strict in (True, False):
            back, err = S.run(g.Track.class_from_element, ns=GXQ, name_spaces=None, element=e, strict=strict)
            S.check("C01 C02 C13", "reading succeeds", err is None, lambda: repr(err))
            same_samples(S, back, s, "C01 C02 C13", f"read ({'strict' if strict else 'lax'})")


def mode_el(S, level):
    return [S.el(KMLQ + "altitudeMode", text="clampToGround")] if level == "verbose" else []


def base_level(level):
    from fastkml.enums import Verbosity
    return Verbosity[level]


def any_of(S, p, s):
    if S.symbolic:
        from vf import seq
        return bool(seq.quantify("any", s, p, "any"))
    return any(p(x) for x in s)


def point(S, pos):
    if S.symbolic:
        from vf import geo
        return geo.point(pos)
    from pygeoif.geometry import Point
    return Point(*pos)


def refusing_all(S):
    """Samples together with times or positions are refused, whatever they are."""
    g = gx()
    dim = S.choice("dim", [2, 3])
    s, r = sample_seq(S, "s", dim, "all", 1), sample_seq(S, "r", dim, "all", 1)
    which = S.choice("which", ["both", "whens", "coords"])
    kw = {"track_items": S.map(lambda x: g.TrackItem(when=x[0], coord=point(S, x[1]), angle=g.Angle(*x[2])), s)}
    if which != "coords":
        kw["whens"] = S.map(lambda x: x[0], r)
    if which != "whens":
        kw["coords"] = S.map(lambda x: x[1], r)
    t, err = S.run(g.Track, **kw)
    S.check("C13", "samples together with sequences are refused", isinstance(err, ValueError), lambda: (which, t, repr(err)))


def copying(S):
    """A track has its own list of samples."""
    g = gx()
    s = sample_seq(S, "s", 2, "all")
    items = S.map(lambda x: g.TrackItem(when=x[0], coord=point(S, x[1]), angle=g.Angle(*x[2])), s)
    keep = S.map(lambda x: x, items)
    arg = S.iterator(items) if S.choice("iterable", ["list", "iterator"]) == "iterator" else items
    t, err = S.run(g.Track, track_items=arg)
    S.check("C17", "a track can be made", err is None, lambda: repr(err))
    if err is not None:
        return
    same_samples(S, t, s, "C17", "given")
    got = t.track_items
    S.check("C17", "a copy of the argument", got is not arg and got is not items)
    x = g.TrackItem(when=None, coord=None)
    got.append(x)
    same = (lambda a, b: S.eq(a, b)) if S.symbolic else (lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b)))
    S.check("C17", "changes of the list do not reach the argument", same(items, keep))
    S.check("C17", "only that list grows", same(t.track_items, S.chain(keep, [x])))
    a, err = S.run(g.Track)
    b, err = S.run(g.Track)
    a.track_items.append(x)
    S.check("C17", "every track has its own empty list", same(b.track_items, []) and b.track_items is not a.track_items)


def keeping(S):
    """A multi-track keeps exactly its non-empty tracks, in order."""
    g = gx()
    ts = S.seq("t", lambda n: S.child(n, "fastkml.gx.Track"))
    m, err = S.run(g.MultiTrack, tracks=ts)
    S.check("C13", "a multi-track can be made", err is None, lambda: repr(err))
    with S.side("spec"):
        want = S.filter(S.nonempty, ts)
    S.check("C13", "exactly the non-empty tracks, in order", S.eq(m.tracks, want))


T = "fastkml.gx.Track."
for how, angle in (("lists", "all"), ("lists", "none"), ("items", "all"), ("items", "some"), ("items", "none")):
    for level, precision, ps in ((None, None, "C01 C02 C04 C13 C18"), ("terse", None, "C02"), ("verbose", None, "C02"), (None, 3, "C02 C18")):
        REGISTRY.append(Harness(track_all, f"track:all:{how}:{angle}" + (f":{level}" if level else "") + (f":{precision}" if precision else ""), ps.split(), (T + "__init__", T + "whens", T + "coords", T + "angles",
                            "fastkml.helpers.datetime_subelement_list", "fastkml.helpers.coords_subelement_list",
                            "fastkml.helpers.datetime_subelement_list_kwarg", "fastkml.helpers.coords_subelement_list_kwarg"),
                            params=(how, angle, level, precision), mode="both", pool=300, cross=40))
REGISTRY.append(Harness(refusing_all, "track:all:refuse", ["C13"], (T + "__init__",), mode="both", pool=200, cross=60))
REGISTRY.append(Harness(copying, "track:all:copy", ["C17"], (T + "__init__",), mode="both", pool=200, cross=60))
REGISTRY.append(Harness(keeping, "track:all:multi", ["C13"], ("fastkml.gx.MultiTrack.__init__",), mode="both", pool=200, cross=60))

for f, n, ps, pool in ((lax_track, "lax", ["C03"], 400), (building, "build", ["C13"], 900), (samples, "samples", ["C13", "C19"], 900), (refusing, "refuse", ["C13"], 200),
                       (multi, "multi", ["C13", "C17"], 500), (text_trip, "text", ["C13"], 500), (bad_track, "malformed", ["C03"], 300)):
    REGISTRY.append(Harness(f, f"track:{n}", ps, (), mode="concrete", pool=pool, why="geometry library and date text"))


def recorded(S):
    """A finding listed in known-findings.jsonl: exactly this input fails in exactly this way."""
    f = S.params
    t, err = S.run(gx().Track.from_string, f["input"], strict=False)
    S.check(f["property"], "known finding", type(err).__name__ != f["raises"], lambda: repr(err))
    S.check(f["property"], "lax reading does not raise", err is None, lambda: repr(err))


def findings():
    import json
    import os
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl")) as fh:
        for k, line in enumerate(fh):
            f = json.loads(line)
            if f["status"] == "known":
                REGISTRY.append(Harness(recorded, f"finding:{k}", [f["property"]], (), params=f, mode="concrete", pool=1, backend="lxml",
                                        finding=f["what"], why="recorded defect"))


findings()
