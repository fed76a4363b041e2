"""C09: searching (and C17: appending)."""
from __future__ import annotations

import enum

from vf.harness import Harness, REGISTRY

from . import gen
from .base import CLASSES, PUBLIC, required, resolve, rows_of, short, value
from .attrs import SKIP
from .whole import filled

TREES = ("fastkml.kml.KML", "fastkml.containers.Document", "fastkml.containers.Folder", "fastkml.features.Placemark",
         "fastkml.styles.StyleMap", "fastkml.styles.Style", "fastkml.geometry.MultiGeometry", "fastkml.gx.MultiTrack",
         "fastkml.overlays.PhotoOverlay", "fastkml.data.ExtendedData")


def inside(o):
    """An object and everything it contains, parents before children, members of a list in order."""
    yield o
    if not hasattr(o, "__dict__"):
        return
    for n, v in list(vars(o).items()):
        if n.startswith("_") or isinstance(v, str):
            continue
        if isinstance(v, (list, tuple, dict, set)):
            for x in v:
                yield from inside(x)
        elif isinstance(v, enum.Enum):
            yield v
        elif v is not None and type(v).__module__.startswith("pygeoif"):
            yield v
        else:
            yield from inside(v)


def ours(x):
    """Objects of the library (plain values are not objects of the tree)."""
    return type(x).__module__.startswith("fastkml") and not isinstance(x, (enum.Enum, type))


def same_objects(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


MISSING = object()


def matches(x, types, kw):
    if types is not None and not isinstance(x, types):
        return False
    return all((v := getattr(x, k, MISSING)) is not MISSING and bool(v == w) for k, w in kw.items())


def searching(S):
    from fastkml.utils import find, find_all
    q = S.params
    o = gen.obj(S, "o", q, depth=3, solid=S.bool("solid"), hollow=S.bool("hollow"))
    everything = [x for x in inside(o) if ours(x)]
    target = S.choice("target", everything)
    how = S.choice("how", ["all", "type", "types", "base", "attr", "type+attr", "two", "none", "missing", "false", "prop", "str"])
    kw, types = {}, None
    rows = [a for a in vars(target) if not a.startswith("_")]
    if how in ("type", "type+attr"):
        types = type(target)
    elif how == "types":
        types = (type(target), type(S.choice("t2", everything)))
    elif how == "base":
        types = S.choice("b", [c for c in type(target).__mro__ if c is not object])
    elif how == "str":
        types = resolve(S.choice("q2", PUBLIC))
    if how in ("attr", "type+attr", "two") and rows:
        for a in ([S.choice("a", rows)] if how != "two" else [S.choice("a1", rows), S.choice("a2", rows)]):
            kw[a] = getattr(target, a)
    elif how == "false":
        kw = {S.choice("fa", ["id", "name", "visibility", "target_id", "ns"]): S.choice("fv", ["", None, False, 0, "nope"])}
    elif how == "missing":
        kw = {"no_such_attribute": None}
    elif how == "none":
        kw = {"id": "no such id"}
        types = type(target)
    elif how == "prop":
        kw = {S.choice("pa", ["geometry", "time_stamp", "begin", "normal", "icon_href"]): None}
    want = [x for x in everything if matches(x, types, kw)]
    got, err = S.run(lambda: list(find_all(o, of_type=types, **kw)))
    S.check("C09", "searching succeeds", err is None, lambda: (types, kw, repr(err)))
    if types is None and not kw:
        got = [x for x in got if ours(x)]
    elif types is None or types is object:
        got = [x for x in got if ours(x)]
    S.check("C09", "exactly the matching objects, in order", same_objects(got, want), lambda: (types, kw, got, want))
    first, err = S.run(lambda: find(o, of_type=types, **kw))
    if types is not None and types is not object:
        S.check("C09", "the first match or nothing", err is None and (first is want[0] if want else first is None), lambda: (types, kw, first, want))
    # a search is lazy and can be abandoned or repeated
    it = find_all(o, of_type=type(target))
    next(it)
    again = list(find_all(o, of_type=type(target)))
    S.check("C09", "searching again gives the same objects", same_objects(again, [x for x in everything if isinstance(x, type(target))]))


# -- deductive part: one level of the tree, what is below by contract ----------


class Found:
    """Everything a search finds in and below a nested object (induction hypothesis)."""

    _vf_plain = True

    def __init__(self, x, types, kw):
        self.x, self.types, self.kw = x, types, kw

    def _vf_eq(self, o):
        return (isinstance(o, Found) and self.x is o.x and self.types == o.types and list(self.kw) == list(o.kw)
                and all(self.kw[k] is o.kw[k] for k in self.kw))

    __eq__ = _vf_eq
    __hash__ = object.__hash__

    def __repr__(self):
        return f"<found in {self.x!r}>"


def nested(S, x):
    x = S.force(x)
    return ours(x) or hasattr(type(x), "_vf_for")


def is_list(S, v):
    return isinstance(v, (list, tuple)) or type(v).__name__ in ("SymSeq", "STuple", "SList", "DerivedSeq")


def below(S, x, types, kw):
    """Contract of find_all: what it gives for a nested object."""
    if not nested(S, x):
        return []
    if S.symbolic:
        return [Found(x, types, kw)]
    return [y for y in inside(x) if ours(y) and matches(y, types, kw)]


def in_tree(S, o, types, kw, hit):
    out = S.chain([], [o] if hit else [])
    for n, v in list(vars(o).items()):
        v = S.force(v)
        if n.startswith("_"):
            continue
        if is_list(S, v):
            if S.symbolic:
                out = S.chain(out, S.map(lambda x: Found(x, types, kw), S.filter(lambda x: nested(S, x), v)))
            else:
                for x in v:
                    out = S.chain(out, below(S, x, types, kw))
        else:
            out = S.chain(out, below(S, v, types, kw))
    return out


def wanted(S, q, o, few=False):
    """Arbitrary search conditions: types and attribute values."""
    if few:
        types = S.choice("types", [None, resolve(q), (str, int)])
        return types, {}, types is None or isinstance(o, types)
    cls = resolve(q)
    rows = [r for r in rows_of(q) if r.simple and r.kind not in ("coordinates", "coordlist", "dtlist") and hasattr(o, r.attr)]
    base = [c for c in cls.__mro__ if c is not object][-1]
    types = S.choice("types", [None, cls, base, (str, cls), resolve("fastkml.times.TimeSpan" if "times" not in q else "fastkml.atom.Author"),
                               (int, float)])
    how = S.choice("how", ["none", "one", "own", "two", "missing", "absent"])
    kw = {}
    if how in ("one", "own", "two") and rows:
        r = S.choice("attr", rows)
        kw[r.attr] = getattr(o, r.attr) if how == "own" else value(S, "w", r)
        if how == "two":
            r2 = rows[(rows.index(r) + 1) % len(rows)]
            kw[r2.attr] = value(S, "w2", r2)
    elif how == "absent" and rows:
        kw[S.choice("attr", rows).attr] = None
    elif how == "missing":
        kw["no_such_attribute"] = None
    hit = types is None or isinstance(o, types)
    for k, w in kw.items():
        hit = hit and hasattr(o, k) and S.yes(S.pyeq(getattr(o, k), w))
    return types, kw, hit


def step(S):
    """find_all for an object whose nested objects satisfy the contract of find_all."""
    from fastkml.utils import find_all
    q = S.params
    nest = [r for r in rows_of(q) if r.kind in ("obj", "objlist") and (q, r.attr) not in SKIP]
    part = S.choice("set", ["all", "none", *nest])
    kw = filled(S, q) if part == "all" else dict(required(q))
    if part in nest:
        # one part, possibly empty
        one = (lambda n: S.child(n, part.classes[0]))
        kw[part.attr] = one("part") if part.kind == "obj" else S.seq("parts", one)
    o, err = S.run(resolve(q), **kw)
    S.check("C09", "constructor accepts the values", err is None, lambda: repr(err))
    if err is not None:
        return
    types, cond, hit = wanted(S, q, o, part in nest)

    def contract(f, x, /, *, of_type=None, **k):
        if not (nested(S, x) and not hasattr(type(S.force(x)), "_vf_for")):
            return below(S, S.force(x), of_type, k)
        return f(x, of_type=of_type, **k)

    S.contract("fastkml.utils.find_all", contract)
    before = S.snapshot(o)
    got, err = S.collect(find_all, o, of_type=types, **cond)
    S.check("C09", "searching succeeds", err is None, lambda: (types, cond, repr(err)))
    if err is not None:
        return
    with S.side("spec"):
        want = in_tree(S, o, types, cond, hit)
    got = S.filter(lambda x: isinstance(x, Found) or nested(S, x), got)
    S.check("C09", "the object itself exactly when it matches, then what its parts give, in order", S.eq(got, want) if S.symbolic
            else same_objects(got, want), lambda: (types, cond, got, want))
    S.check("C09", "searching changes nothing", S.same(before))


PLAIN = [None, True, False, 0, 1, 2.5, "", "x", (), (1.0, 2.0), [], {}, {"a": "{b}"}, b"x", object]


def plain_step(S):
    """A search in a value that is no object of the library finds no object of the library."""
    from fastkml.utils import find_all
    from fastkml import enums
    x = S.choice("x", [*PLAIN, *list(enums.AltitudeMode), enums.Verbosity.terse])
    types, kw = S.choice("t", [None, str, resolve("fastkml.features.Placemark"), object]), S.choice("k", [{}, {"id": ""}, {"value": 1}])
    got, err = S.collect(find_all, x, of_type=types, **kw)
    S.check("C09", "searching a plain value succeeds", err is None, lambda: repr(err))
    if err is None:
        S.check("C09", "nothing but the value itself", all(y is x for y in got) and len(got) <= 1, lambda: got)


def first(S):
    """find and get_style_by_url: the first of what find_all gives."""
    from fastkml.styles import Style, StyleMap
    from fastkml.utils import find
    how = S.choice("call", ["find", "url"])
    q = "fastkml.containers.Document"
    if how == "find":
        o = S.child("o", q, solid=True)
    else:
        # any fragment; Python's URL parser drops line breaks, so it is taken without white space
        frag = S.text("frag", token=True)
        ids = S.choice("ids", [("a", "b"), ("a", frag), (frag, "a"), (frag, frag)])
        o = resolve(q)(styles=[Style(id=ids[0]), StyleMap(id=ids[1]), Style(id="b")])
    if how == "find":
        types = S.choice("types", [None, resolve(q), (Style, StyleMap)])
        kw = S.choice("kw", [{}, {"id": "a"}, {"id": "a", "name": None}])
    else:
        url = S.choice("url", ["#", "doc.kml#", "http://example.com/x/y.kml?q=1#"]) + frag
        types, kw = (Style, StyleMap), {"id": frag}
    if S.symbolic:
        found = S.seq("found", lambda n: S.child(n, "fastkml.styles.Style"))
        calls = []

        def contract(f, x, /, *, of_type=None, **k):
            calls.append((x, of_type, k))
            return S.iterator(found)

        S.contract("fastkml.utils.find_all", contract)
    else:
        found = [y for y in inside(o) if ours(y) and matches(y, types, kw)]
    got, err = S.run(find, o, of_type=types, **kw) if how == "find" else S.run(o.get_style_by_url, url)
    S.check("C09", "looking for one object succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    if S.symbolic:
        same = len(calls) == 1 and calls[0][0] is o and S.yes(S.eq(calls[0][2], kw))
        ts = [set(t) if isinstance(t, tuple) else t for t in (types, calls[0][1] if calls else 0)]
        S.check("C09", "asks for the matching objects", same and ts[0] == ts[1])
    with S.side("spec"):
        want = found[0] if S.yes(S.truth(found)) else None
    S.check("C09", "the first match or nothing", got is want or (types is None and not S.symbolic), lambda: (got, want))


def style_tree(S):
    from fastkml import Document, Folder, Placemark, Style, StyleMap
    from fastkml.styles import LineStyle, Pair, StyleUrl
    ids = ["a", "b", "a b", "Ä", "x-1", "A", "highlight", None]
    def st(n):
        i = S.choice(f"{n}.id", ids)
        k = S.choice(f"{n}.k", ["style", "map", "url"])
        if k == "style":
            return Style(id=i, styles=[LineStyle(width=1.0, id=S.choice(f"{n}.lid", ids))])
        if k == "map":
            return StyleMap(id=i, pairs=[Pair(id=S.choice(f"{n}.pid", ids), key=None, style=Style(id=S.choice(f"{n}.nid", ids), styles=[LineStyle(width=2.0)]))])
        return None
    def styles(n):
        return [x for x in (st(f"{n}{k}") for k in range(S.choice(f"{n}.n", [0, 1, 2, 3]))) if x is not None]
    def feats(n, d):
        out = []
        for k in range(S.choice(f"{n}.fn", [0, 1, 2])):
            kind = S.choice(f"{n}.fk{k}", ["p", "f"]) if d else "p"
            kw = {"id": S.choice(f"{n}.fid{k}", ids), "styles": styles(f"{n}.f{k}")}
            if S.bool(f"{n}.su{k}"):
                kw["style_url"] = StyleUrl(url="#a")
            out.append(Placemark(**kw) if kind == "p" else Folder(features=feats(f"{n}.{k}", d - 1), **kw))
        return out
    return Document(id=S.choice("did", ids), styles=styles("d"), features=feats("d", 2))


def by_url(S):
    """Looking up a style."""
    from fastkml import Style, StyleMap
    d = style_tree(S)
    frag = S.choice("frag", ["a", "b", "a b", "Ä", "x-1", "A", "zzz", "highlight", "a#b"])
    url = S.choice("url", ["#", "doc.kml#", "http://example.com/x/y.kml?q=1#", "../styles.kml#", "urn:x#"]) + frag
    want = [x for x in inside(d) if isinstance(x, (Style, StyleMap)) and x.id == frag]
    got, err = S.run(d.get_style_by_url, url)
    S.check("C09", "looking up a style succeeds", err is None, lambda: (url, repr(err)))
    S.check("C09", "the first style or style map with that id, or nothing", got is want[0] if want else got is None, lambda: (url, got, want))


def appending(S):
    """C17: appending adds exactly that object at the end."""
    from fastkml import KML, Document, Folder
    from fastkml.data import Schema, SchemaData
    q = S.choice("container", ["fastkml.kml.KML", "fastkml.containers.Document", "fastkml.containers.Folder", "fastkml.data.Schema",
                               "fastkml.data.SchemaData"])
    attr = {"fastkml.data.Schema": "fields", "fastkml.data.SchemaData": "data"}.get(q, "features")
    add = "append_data" if q == "fastkml.data.SchemaData" else "append"
    o = gen.obj(S, "o", q, depth=1, solid=S.bool("solid"))
    other = gen.obj(S, "o2", q, depth=1, solid=False)
    row = next(r for r in rows_of(q) if r.attr == attr)
    before, theirs = list(getattr(o, attr)), list(getattr(other, attr))
    rest = {k: v for k, v in vars(o).items() if k != attr}
    added = []
    for k in range(S.choice("n", [1, 2, 4])):
        c = S.choice(f"c{k}", list(row.classes))
        x = gen.obj(S, f"x{k}", c, depth=0, solid=S.bool(f"s{k}"))
        if S.bool(f"again{k}") and added:
            x = added[0]
        r, err = S.run(getattr(o, add), x)
        S.check("C17", "appending succeeds", err is None and r is None, lambda: repr(err))
        added.append(x)
    S.check("C17", "exactly those objects at the end", same_objects(list(getattr(o, attr)), before + added), lambda: (getattr(o, attr), before, added))
    S.check("C17", "nothing else changes", same_objects(list(getattr(other, attr)), theirs)
            and all(vars(o)[k] is v for k, v in rest.items()) and set(vars(o)) == {*rest, attr})
    if isinstance(o, (Document, Folder)):
        r, err = S.run(o.append, o)
        S.check("C17", "a container refuses to be appended to itself", isinstance(err, ValueError)
                and same_objects(list(o.features), before + added), lambda: (err, o.features))
        f = type(o)(**{k: getattr(o, k) for k in ("id", "name")})
        g = type(o)(**{k: getattr(o, k) for k in ("id", "name")})
        r, err = S.run(f.append, g)
        S.check("C17", "an equal container is not the container itself", err is None and f.features[-1] is g, lambda: repr(err))


def append_any(S):
    """C17: appending to a container with any contents."""
    q, attr, add = S.params
    row = next(r for r in rows_of(q) if r.attr == attr)
    cs = list(row.classes)[:2] if S.symbolic else list(row.classes)
    items = S.seq("v", lambda n: S.child(n, S.choice(f"{n}.class", cs)))
    keep = S.map(lambda x: x, items)
    o, err = S.run(resolve(q), **{**required(q), attr: items})
    other, err2 = S.run(resolve(q), **{**required(q), attr: items})
    S.check("C17", "containers can be made", err is None and err2 is None)
    if err is not None or err2 is not None:
        return
    rest = {k: v for k, v in vars(o).items() if k != attr}
    x = S.child("x", S.choice("x.class", list(row.classes)))
    r, err = S.run(getattr(o, add), x)
    S.check("C17", "appending succeeds", err is None and r is None, lambda: repr(err))
    same = (lambda a, b: S.eq(a, b)) if S.symbolic else same_objects
    S.check("C17", "exactly that object at the end", same(getattr(o, attr), S.chain(keep, [x])), lambda: (getattr(o, attr), keep, x))
    S.check("C17", "nothing else changes", S.conj(same(getattr(other, attr), keep), all(vars(o)[k] is v for k, v in rest.items()), set(vars(o)) == {*rest, attr}))
    if short(q) in ("containers.Document", "containers.Folder"):
        r, err = S.run(o.append, o)
        S.check("C17", "a container refuses to be appended to itself", isinstance(err, ValueError))
        S.check("C17", "and stays as it is", same(getattr(o, attr), S.chain(keep, [x])))


for q, attr, add in (("fastkml.kml.KML", "features", "append"), ("fastkml.containers.Document", "features", "append"),
                     ("fastkml.containers.Folder", "features", "append"), ("fastkml.data.Schema", "fields", "append"),
                     ("fastkml.data.SchemaData", "data", "append_data")):
    REGISTRY.append(Harness(append_any, f"append:{short(q)}", ["C17"], (), params=(q, attr, add), cross=100, pool=300))


for q in PUBLIC:
    REGISTRY.append(Harness(step, f"find-step:{short(q)}", ["C09"], (), params=q, cross=40, pool=300))
REGISTRY.append(Harness(plain_step, "find-plain", ["C09"], (), mode="both", cross=200, pool=400))
REGISTRY.append(Harness(first, "find-first", ["C09"], (), mode="both", cross=100, pool=300))
for q in TREES:
    REGISTRY.append(Harness(searching, f"find:{short(q)}", ["C09"], (), params=q, mode="concrete", pool=500 if "containers" in q or "kml.KML" in q else 250,
                            why="recursive search over object trees of any shape"))
REGISTRY.append(Harness(by_url, "find:style", ["C09"], (), mode="concrete", pool=1200, why="URL parsing"))
REGISTRY.append(Harness(appending, "append", ["C17"], (), mode="concrete", pool=600, why="identity of list members"))
