"""Reading one simple value of one class from XML: accepted forms, malformed
values, namespaces."""
from __future__ import annotations

from vf.harness import Harness, REGISTRY

from .base import CLASSES, PUBLIC, GX, KML, ATOM, STD, own_ns, required, resolve, rows_of, short, spaces, stored
from .attrs import SKIP
from .table import ENUMS

FOREIGN = "{urn:foreign}"


def interpret(S, row, t, strict):
    """('absent'|'value'|'malformed', value) for the text or attribute t."""
    k = row.kind
    if t is None:
        return "absent", None
    if k == "atext":
        return ("value", t) if S.yes(S.ne(t, "")) else ("absent", None)
    if row.is_attr:
        if not S.yes(S.ne(t, "")):
            return "absent", None
        s = t
    else:
        s = S.strip(t)
        if not S.yes(S.ne(s, "")):
            return "absent", None
    if k in ("text", "ntext"):
        return "value", s
    if k == "bool":
        u = s if strict else S.lower(s)
        if S.yes(S.disj(S.eq(u, "1"), S.eq(u, "true"))):
            return "value", True
        if S.yes(S.disj(S.eq(u, "0"), S.eq(u, "false"))):
            return "value", False
        if not strict and S.yes(S.float_ok(u)):
            return "value", S.yes(S.neg(S.pyeq(S.float_of(u), 0.0)))
        return "malformed", None
    if k in ("int", "aint"):
        return ("value", S.int_of(s)) if S.yes(S.int_ok(s)) else ("malformed", None)
    if k in ("float", "afloat"):
        return ("value", S.float_of(s)) if S.yes(S.float_ok(s)) else ("malformed", None)
    if k in ("enum", "aenum"):
        for m, t in row.members:
            if S.yes(S.eq(s, t)):
                return "value", m
        if not strict:
            low = S.lower(s)
            for m, t in row.members:
                if S.yes(S.eq(low, t.lower())):
                    return "value", m
        return "malformed", None
    if k == "dt":
        ok, v = S.parsed_dt(s)
        return ("value", v) if ok else ("malformed", None)
    raise AssertionError(k)


def place(S, q, row, t, ns, base=None):
    """Element of class q with the value t of the row in namespace ns."""
    parts = base or {"text": None, "attrs": {}, "children": []}
    if row.kind == "ntext":
        parts["text"] = t
    elif row.is_attr:
        if t is not None:
            parts["attrs"][ns + row.node] = t
    else:
        parts["children"].append(S.el(ns + row.node, text=t))
    return parts


def build(S, q, mode, parts):
    attrs = dict(parts["attrs"])
    if q == "fastkml.data.Schema" and not any(k.endswith("id") for k in attrs):
        attrs["id"] = "i"
    return S.el(own_ns(q, mode) + CLASSES[q]["tag"], text=parts["text"], attrs=attrs, children=parts["children"])


def read(S, q, mode, el, strict):
    cls = resolve(q)
    sp = spaces(mode)
    return S.run(cls.class_from_element, ns=own_ns(q, mode), name_spaces=sp, element=el, strict=strict)


def absent(S, row, q):
    w = required(q).get(row.attr)
    return w if w is not None else stored(S, row, None, q)


def untouched(S, q, obj, *rows):
    names = {r.attr for r in rows}
    rs = []
    for r in rows_of(q):
        if r.attr in names:
            continue
        v = getattr(obj, r.attr, None)
        if r.kind in ("objlist", "dtlist", "coordlist", "coordinates"):
            rs.append(not v)
        elif r.kind == "obj":
            rs.append(v is None)
        else:
            rs.append(S.eq(v, absent(S, r, q)))
    return S.conj(*rs)


def is_parse_error(err):
    from fastkml.exceptions import KMLParseError
    return isinstance(err, KMLParseError)


def text_for(S, row, name="t"):
    if not S.symbolic:
        return S.src.literal(name, row, S)
    return S.text(name)


def forms(S):
    """C03, C04: which texts are accepted, as what, and what happens to others."""
    q, row = S.params
    mode = "default"
    strict = S.choice("strict", [True, False])
    t = S.choice("kind", ["text", "none"])
    t = text_for(S, row) if t == "text" else None
    if t is None and row.is_attr:
        return
    if row.kind == "ntext" and t is None:
        return
    ns = "" if row.is_attr else spaces(mode)[row.nsids[0]]
    if row.kind == "ntext":
        ns = ""
    el = build(S, q, mode, place(S, q, row, t, ns))
    S.freeze(el)
    with S.side("spec"):
        st, v = interpret(S, row, t, strict)
    obj, err = read(S, q, mode, el, strict)
    if (q, row.attr) == ("fastkml.data.Schema", "id"):
        if st != "value" or not S.yes(S.ne(S.strip(v), "")):
            return
    if st == "malformed" and strict:
        S.check("C03", "malformed value is refused with a parse error", is_parse_error(err), lambda: (t, repr(err)))
        return
    S.check("C03 C04", "reading succeeds", err is None, lambda: (t, repr(err)))
    if err is not None:
        return
    want = stored(S, row, v, q) if st == "value" and row.kind in ("text", "ntext", "atext") else v
    if st != "value":
        want = absent(S, row, q)
    S.check("C04" if st != "malformed" else "C03 C04", f"{row.attr} has the value the text denotes",
            S.eq(getattr(obj, row.attr), want), lambda: (t, getattr(obj, row.attr), want))
    S.check("C03 C04", "nothing else is read from it", untouched(S, q, obj, row))
    S.check("C16", "the element is unchanged", S.unchanged())


def neighbours(q, row):
    rs = [r for r in rows_of(q) if r.simple and r.attr != row.attr and (q, r.attr) not in SKIP]
    i = [r.attr for r in rows_of(q)].index(row.attr)
    order = [r.attr for r in rows_of(q)]
    rs.sort(key=lambda r: abs(order.index(r.attr) - i))
    return rs


def beside(S):
    """C03: a malformed value does not affect any other value of the element."""
    q, row = S.params
    near = neighbours(q, row)
    if S.symbolic:
        near = near[:2]
    if not near:
        return
    other = S.choice("other", near)
    mode = "default"
    t = text_for(S, row)
    u, w = good(S, other, "u") if S.symbolic or S.choice("good", [0, 1]) else (text_for(S, other, "u"), None)
    parts = {"text": None, "attrs": {}, "children": []}
    first = S.choice("order", [0, 1])
    ns = lambda r: "" if r.is_attr or r.kind == "ntext" else spaces(mode)[r.nsids[0]]  # noqa: E731
    for r, x in ((row, t), (other, u)) if first == 0 else ((other, u), (row, t)):
        place(S, q, r, x, ns(r), parts)
    el = build(S, q, mode, parts)
    with S.side("spec"):
        st, v = interpret(S, row, t, False)
        if w is None:
            so, w = interpret(S, other, u, False)
        else:
            so = "value"
    if st != "malformed":
        return
    if (q, other.attr) == ("fastkml.data.Schema", "id"):
        return
    obj, err = read(S, q, mode, el, False)
    S.check("C03", "lax reading completes", err is None, lambda: repr(err))
    if err is not None:
        return
    want = absent(S, other, q) if so != "value" else (stored(S, other, w, q) if other.kind in ("text", "ntext", "atext") else w)
    S.check("C03", f"{other.attr} is read although {row.attr} is malformed", S.eq(getattr(obj, other.attr), want))
    S.check("C03", f"malformed {row.attr} is dropped", S.eq(getattr(obj, row.attr), absent(S, row, q)))


def places(row):
    std = [("", ""), ("kml", KML), ("gx", GX), ("atom", ATOM)]
    return std + [("foreign", FOREIGN)]


def good(S, row, name):
    """A well-formed text of the row's kind together with its value."""
    k = row.kind
    if k in ("text", "ntext", "atext"):
        t = S.text(name, clean=True, nonempty=True)
        return t, t
    if k == "bool":
        b = S.choice(name, [True, False])
        return ("1" if b else "0"), b
    if k in ("int", "aint"):
        n = S.int(name)
        return S.str(n), n
    if k in ("float", "afloat"):
        x = S.real(name)
        return S.str(x), x
    if k in ("enum", "aenum"):
        ms = row.members
        m, t = S.choice(name, [ms[0], ms[-1]] if S.symbolic else ms)
        return t, m
    if k == "dt":
        d = S.kdt(name)
        return S.str(d), d
    raise AssertionError(k)


def where(S):
    """C07: in which namespaces a value is found, and which one wins."""
    q, row = S.params
    mode = S.choice("ns", ["default", "mapped"])
    sp = spaces(mode)
    table = [("", "")] + [(k, sp[k]) for k in ("kml", "gx", "atom")] + [("foreign", FOREIGN), ("std", KML if mode == "mapped" else FOREIGN + "x")]
    table = [(i, n if n.startswith("{") or not n else "{" + n + "}") for i, n in table]
    a = S.choice("place", table)
    two = S.choice("second", [None] + table)
    if two == a:
        return
    t, v = good(S, row, "v")
    parts = place(S, q, row, t, a[1])
    w = u = None
    if two is not None:
        u, w = good(S, row, "w")
        place(S, q, row, u, two[1], parts)
    el = build(S, q, mode, parts)
    obj, err = read(S, q, mode, el, True)
    if (q, row.attr) == ("fastkml.data.Schema", "id") and err is not None:
        return
    S.check("C07", "reading succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    want = absent(S, row, q)
    for nsid in row.nsids:
        if nsid == a[0]:
            want = v
            break
        if two is not None and nsid == two[0]:
            want = w
            break
    S.check("C07", f"{row.attr} is taken from its declared namespaces only, first declared first",
            S.eq(getattr(obj, row.attr), want), lambda: (a, two, getattr(obj, row.attr), want))


def nested_where(S):
    """C07: nested objects are found in each declared namespace, others are ignored."""
    q, row = S.params
    mode = "default"
    sp = spaces(mode)
    table = [("", "")] + [(k, sp[k]) for k in ("kml", "gx", "atom")] + [("foreign", FOREIGN)]
    nsid, ns = S.choice("place", table)
    cq = S.choice("class", list(row.classes))
    c = S.child_in("c", cq, ns)
    e = S.child_el(c)
    el = S.el(own_ns(q, mode) + CLASSES[q]["tag"], attrs={"id": "i"} if q == "fastkml.data.Schema" else {}, children=[e])
    obj, err = read(S, q, mode, el, True)
    S.check("C07", "reading succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    got = getattr(obj, row.attr)
    if nsid in row.nsids:
        one = got if row.kind == "obj" else (got[0] if S.yes(S.pyeq(S.length(got), 1)) else None)
        S.check("C07", f"{row.attr} is found in namespace '{nsid}'", S.same_child(one, c, ns), lambda: repr(got))
    else:
        S.check("C07", f"{row.attr} is not taken from namespace '{nsid}'", not got, lambda: repr(got))


def enumeration(S):
    """C04: an enumeration has exactly the values of the schema."""
    from fastkml import enums
    name, = S.params
    cls = getattr(enums, name)
    have = {m.name: m.value for m in cls}
    S.check("C04", f"{name} has exactly the values of the schema", have == ENUMS[name], lambda: repr(have))
    n = S.choice("n", sorted(ENUMS[name]))
    m, err = S.run(lambda: cls(ENUMS[name][n]))
    S.check("C04", f"the text of the schema denotes the value in {name}", err is None and m is getattr(cls, n, 0), lambda: repr((n, m, err)))


def setup():
    for name in ENUMS:
        REGISTRY.append(Harness(enumeration, f"enum:{name}", ["C04"], (), params=(name,), cross=40))
    for q in PUBLIC:
        for row in rows_of(q):
            if (q, row.attr) in SKIP:
                continue
            nm = f"{short(q)}.{row.attr}"
            if row.simple:
                REGISTRY.append(Harness(forms, f"forms:{nm}", ["C03", "C04", "C16"], (), params=(q, row), cross=40))
                if row.kind != "ntext":
                    REGISTRY.append(Harness(where, f"where:{nm}", ["C07"], (), params=(q, row), cross=40))
                if row.kind not in ("text", "ntext", "atext") and len(rows_of(q)) > 1:
                    REGISTRY.append(Harness(beside, f"beside:{nm}", ["C03"], (), params=(q, row), cross=40))
            else:
                REGISTRY.append(Harness(nested_where, f"nested:{nm}", ["C07"], (), params=(q, row), cross=20))


setup()
