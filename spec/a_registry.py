"""C08: the registry."""
from __future__ import annotations

from vf.harness import Harness, REGISTRY

from . import gen
from .base import CLASSES, KML, PUBLIC, ROWS, extend, required, resolve, row_of, rows_of, short

# kind -> (set_element, get_kwarg, class of the value)
KINDS = {
    "text": ("text_subelement", "subelement_text_kwarg"),
    "bool": ("bool_subelement", "subelement_bool_kwarg"),
    "int": ("int_subelement", "subelement_int_kwarg"),
    "float": ("float_subelement", "subelement_float_kwarg"),
    "enum": ("enum_subelement", "subelement_enum_kwarg"),
    "atext": ("text_attribute", "attribute_text_kwarg"),
    "afloat": ("float_attribute", "attribute_float_kwarg"),
    "aint": ("int_attribute", "attribute_int_kwarg"),
    "aenum": ("enum_attribute", "attribute_enum_kwarg"),
    "dt": ("datetime_subelement", "datetime_subelement_kwarg"),
    "obj": ("xml_subelement", "xml_subelement_kwarg"),
    "objlist": ("xml_subelement_list", "xml_subelement_list_kwarg"),
}


def item(S, kind, attr, node, default=None):
    from fastkml import enums, helpers
    from fastkml.registry import RegistryItem
    from fastkml.styles import LineStyle, PolyStyle
    from fastkml.times import KmlDateTime
    s, g = KINDS[kind]
    classes = {"text": (str,), "atext": (str,), "bool": (bool,), "int": (int,), "aint": (int,), "float": (float,), "afloat": (float,),
               "enum": (enums.RefreshMode,), "aenum": (enums.RefreshMode,), "dt": (KmlDateTime,), "obj": (LineStyle, PolyStyle),
               "objlist": (LineStyle, PolyStyle)}[kind]
    return RegistryItem(ns_ids=("kml", ""), classes=classes, attr_name=attr, node_name=node, get_kwarg=getattr(helpers, g),
                        set_element=getattr(helpers, s), default=default)


def custom_value(S, kind):
    from fastkml import enums
    from fastkml.styles import LineStyle, PolyStyle
    return {"text": lambda: S.text("v", clean=True, nonempty=True), "atext": lambda: S.text("v", clean=True, nonempty=True),
            "bool": lambda: S.bool("v"), "int": lambda: S.int("v"), "aint": lambda: S.int("v"),
            "float": lambda: S.real("v"), "afloat": lambda: S.real("v"), "enum": lambda: S.enum("v", enums.RefreshMode),
            "aenum": lambda: S.enum("v", enums.RefreshMode), "dt": lambda: gen.kdt(S, "v"),
            "obj": lambda: S.choice("v", [LineStyle(width=2.0), PolyStyle(fill=True)]),
            "objlist": lambda: [LineStyle(width=1.0), LineStyle(width=2.5), PolyStyle(fill=True)][:S.choice("n", [1, 2, 3])]}[kind]()


def custom(S):
    """An application registers an attribute for a class: it is written and read like the built-in ones."""
    from fastkml.registry import registry
    q = S.params
    base = resolve(q)
    kind = S.choice("kind", list(KINDS))
    if kind in ("atext", "text") and S.bool("clash"):
        pass
    sub = type(base.__name__, (base,), {"__module__": base.__module__})
    other = type(base.__name__, (base,), {"__module__": base.__module__})
    before = {p: list(registry.get(resolve(p))) for p in PUBLIC}
    it = item(S, kind, "vf_extra", "vfExtra" if kind not in ("obj", "objlist") else "LineStyle,PolyStyle")
    registry.register(sub, it)
    S.check("C08", "mappings of the class: its ancestors' first, then its own", list(registry.get(sub)) == [*before[q], it], lambda: registry.get(sub))
    S.check("C08", "unrelated classes are not affected", all(list(registry.get(resolve(p))) == before[p] for p in PUBLIC)
            and list(registry.get(other)) == before[q])
    o = gen.obj(S, "o", q, depth=0, solid=S.bool("solid"))
    v = custom_value(S, kind)
    kw = {r.attr: getattr(o, r.attr) for r in rows_of(q) if getattr(o, r.attr, None) not in (None, []) and r.attr not in ("whens", "angles")}
    if q == "fastkml.gx.Track":
        kw = {"track_items": o.track_items, **{k: x for k, x in kw.items() if k not in ("coords",)}}
    kw.update(required(q) if not kw.get("id") else {})
    x, err = S.run(sub, **kw, vf_extra=v)
    S.check("C08", "the constructor takes the attribute", err is None and x.vf_extra is v, lambda: (kw, repr(err)))
    plain, _ = S.run(sub, **kw)
    e, err = S.run(x.etree_element)
    S.check("C08", "it can be written", err is None, lambda: repr(err))
    p, _ = S.run(plain.etree_element)
    from vf.harness import conc_tree
    tx, tp = conc_tree(e), conc_tree(p)
    added = [c for c in tx[3]][len(tp[3]):]
    extra_attrs = set(tx[1]) - set(tp[1])
    want = v if kind not in ("bool", "enum", "aenum") else ({True: "1", False: "0"}[v] if kind == "bool" else v.value)
    if kind in ("obj", "objlist"):
        vs = v if kind == "objlist" else [v]
        S.check("C08", "it is written after the built-in ones", tx[3][:len(tp[3])] == tp[3] and added == [conc_tree(c.etree_element()) for c in vs]
                and not extra_attrs, lambda: (tx, tp))
    elif kind.startswith("a"):
        S.check("C08", "it is written as an attribute", tx[3] == tp[3] and extra_attrs == {("vfExtra", str(want))}, lambda: (tx, tp))
    else:
        ns = (KML if kind == "dt" else x.ns)
        S.check("C08", "it is written after the built-in ones", tx[3][:len(tp[3])] == tp[3] and not extra_attrs
                and [(c[0], c[2]) for c in added] == [(ns + "vfExtra", str(want))], lambda: (tx, tp))
    strict = S.bool("strict")
    if not x.ns == KML and kind not in ("dt", "atext", "aint", "afloat", "aenum"):
        # elements of the Atom and extension classes: the mapping is declared for the KML namespace
        return
    back, err = S.run(sub.class_from_element, ns=x.ns, name_spaces=None, element=e, strict=strict)
    S.check("C08", "it can be read", err is None, lambda: repr(err))
    if kind in ("obj", "objlist") and any(r.kind in ("obj", "objlist") and any("styles" in c for c in r.classes) for r in rows_of(q)):
        return
    S.check("C08", "with the value that was written", getattr(back, "vf_extra", None) == v, lambda: (getattr(back, "vf_extra", None), v, tx))
    b2, err = S.run(sub.class_from_element, ns=x.ns, name_spaces=None, element=p, strict=strict)
    S.check("C08", "and absent when it was not", err is None and getattr(b2, "vf_extra", None) is None, lambda: repr(err))


def deep(S):
    """Mappings registered at several levels, in any order."""
    from fastkml.registry import Registry, registry
    n = S.choice("n", [1, 2, 3, 5])
    base = resolve(S.choice("base", PUBLIC))
    own = S.bool("own")
    reg = Registry() if own else registry
    inherited = [] if own else list(registry.get(base))
    classes = [base]
    tree = {base: []}
    mine = {base: []}
    for k in range(n):
        parent = S.choice(f"p{k}", classes)
        c = type(f"K{k}", (parent,), {})
        classes.append(c)
        mine[c] = []
    if S.bool("mixin"):
        a = type("MixA", (base,), {})
        b = type("MixB", (base,), {})
        c = type("Both", (a, b), {})
        for x in (a, b, c):
            classes.append(x)
            mine[x] = []
    for k in range(S.choice("m", [1, 3, 6])):
        c = S.choice(f"c{k}", classes[1:] if not own else classes)
        it = item(S, "text", f"a{k}", f"n{k}")
        r, err = S.run(reg.register, c, it)
        S.check("C08", "registering succeeds", err is None and r is None, lambda: repr(err))
        mine[c].append(it)
        for x in classes:
            want = list(inherited) if not own else []
            for anc in reversed(x.__mro__):
                want += mine.get(anc, []) if anc is not base or own else []
            got = list(reg.get(x))
            S.check("C08", "the mappings of a class: ancestors first, each in registration order", got == want, lambda: (x, got, want))
            got.append("junk") if isinstance(got, list) else None
            g2 = reg.get(x)
            if isinstance(g2, list):
                g2.append("junk")
            S.check("C08", "queries never change the registry", list(reg.get(x)) == want, lambda: (x, reg.get(x)))


def builtin(S):
    """The built-in mappings of every class."""
    from fastkml.registry import registry
    for q in [c for c in CLASSES if "+" not in c]:
        got = [(i.attr_name) for i in registry.get(resolve(q))]
        want = [r.attr for r in rows_of(q)]
        S.check("C08", "the built-in mappings of a class", sorted(got) == sorted(want), lambda: (q, got, want))


def late(S):
    """Registering for an ancestor later reaches existing subclasses; registering the same attribute twice writes it twice."""
    from fastkml.registry import registry
    q = S.choice("q", PUBLIC)
    base = resolve(q)
    a = type(base.__name__, (base,), {"__module__": base.__module__})
    b = type(base.__name__, (a,), {"__module__": base.__module__})
    o = b(**required(q), vf_a=S.text("v", clean=True, nonempty=True))
    e0 = o.to_string()
    registry.register(a, item(S, "text", "vf_a", "vfA"))
    e1 = o.to_string()
    S.check("C08", "a mapping registered for an ancestor applies", "vfA" in e1 and "vfA" not in e0, lambda: (e0, e1))


# -- symbolic contracts

DEFAULTS = {"bool": True, "int": 3, "float": 1.5, "afloat": 1.5, "aint": 3, "enum": "@RefreshMode.on_interval", "aenum": "@RefreshMode.on_interval"}
CLS = {"enum": ["fastkml.enums.RefreshMode"], "aenum": ["fastkml.enums.RefreshMode"],
       "obj": ["fastkml.styles.LineStyle", "fastkml.styles.PolyStyle"], "objlist": ["fastkml.styles.LineStyle", "fastkml.styles.PolyStyle"]}


def extended_classes():
    for q in PUBLIC:
        for kind in KINDS:
            d = DEFAULTS.get(kind)
            node = "vfExtra" if kind not in ("obj", "objlist") else "LineStyle,PolyStyle"
            ns = (CLASSES[q]["nsid"], "") if kind not in ("dt", "obj", "objlist") else ("kml", "")

            def make(kind=kind, node=node, ns=ns, d=d):
                import dataclasses
                from fastkml import enums
                v = d if not isinstance(d, str) else enums.RefreshMode[d.split(".")[1]]
                return dataclasses.replace(item(None, kind, "vf_extra", node, v), ns_ids=ns)
            yield q, kind, extend(q, kind, ("vf_extra", kind, node, ns, CLS.get(kind, []), d), make)


def extension(S):
    """A mapping an application registers for its own subclass is treated like a built-in one, for every value."""
    from . import attrs
    q, kind, qk = S.params
    cls = resolve(qk)
    row = row_of(qk, "vf_extra")
    with attrs_as(S, "C02"):
        v = S.text("v", clean=True, nonempty=True) if kind in ("text", "atext") else attrs.draw(S, row, "default")
    obj, err = S.run(cls, **required(q), vf_extra=v)
    S.check("C08", "the constructor takes the attribute", err is None, lambda: repr(err))
    if err is not None:
        return
    S.check("C08", "the attribute is what was passed", S.eq(obj.vf_extra, v))
    for verb in attrs.LEVELS:
        for p in (None, 3) if kind in ("obj", "objlist") else (None,):
            e, err = S.run(obj.etree_element, precision=p, verbosity=attrs.level(verb))
            S.check("C08", "it can be written", err is None, lambda: repr(err))
            if err is not None:
                return
            with S.side("spec"):
                x = attrs.expected(S, qk, row, v, "default", p, verb)
            S.check("C08", f"it is written after the inherited ones at {verb}", S.tree_eq(e, x), lambda: S.show(e, x))
    if any(r.kind in ("obj", "objlist") and set(r.classes) & set(row.classes) for r in rows_of(q)) and kind in ("obj", "objlist"):
        return
    with attrs_as(S, "C01"):
        if kind in ("obj", "objlist"):
            return round_trip_solid(S, attrs, qk, row, cls, q)
        attrs.round_trip(S, qk, row, cls, obj, v, "default")


def round_trip_solid(S, attrs, qk, row, cls, q):
    w = attrs.draw(S, row, "default", "w")
    if row.kind == "objlist":
        S.assume(S.truth(w))
    obj, err = S.run(cls, **required(q), vf_extra=w)
    S.check("C01", "the constructor takes the attribute", err is None, lambda: repr(err))
    if err is None:
        attrs.round_trip(S, qk, row, cls, obj, w, "default")


class attrs_as:
    """The same obligations as for the built-in mappings, here on behalf of C08."""

    def __init__(self, S, prop):
        self.S, self.prop = S, prop

    def __enter__(self):
        self.old, self.S.prop = self.S.prop, self.prop

    def __exit__(self, *a):
        self.S.prop = self.old
        return False


def stub_item(S, n):
    """An arbitrary mapping."""
    from fastkml.registry import RegistryItem
    return RegistryItem(ns_ids=("kml",), classes=(str,), attr_name=S.text(n + ".attr"), node_name=S.text(n + ".node"),
                        get_kwarg=_unused, set_element=_unused, default=None)


def _unused(**k):
    raise AssertionError


def contents(S):
    """What a query returns, for arbitrary contents of the registry; registering adds exactly one mapping."""
    from fastkml.registry import Registry
    q = S.params
    cls = resolve(q)
    mro = cls.__mro__[:-1]
    bare = S.choice("bare", ["none", "all", *range(len(mro))])     # classes without mappings of their own
    have = {c: S.seq(f"r{k}", lambda n: stub_item(S, n), minlen=1) for k, c in enumerate(mro) if bare not in ("all", k)}
    sub = type("Sub", (cls,), {})
    reg = Registry(registry={c: S.chain([], l) for c, l in have.items()})
    new = []

    def want(c):
        with S.side("spec"):
            out = []
            for a in reversed(c.__mro__[:-1]):
                out = S.chain(out, have.get(a, []))
                out = S.chain(out, [it for at, it in new if at is a])
            return out

    def agree(label):
        for c in (sub, *mro):
            got, err = S.run(reg.get, c)
            S.check("C08", label, err is None, lambda: repr(err))
            S.check("C08", label, S.eq(got, want(c)), lambda: (c, got, want(c)))
            if not S.symbolic and isinstance(got, list):
                got.append("junk")

    agree("the mappings of a class are those of its ancestors, then its own")
    for k in range(2):
        it = stub_item(S, f"new{k}")
        at = S.choice(f"at{k}", [sub, *mro] if k == 0 else [sub, mro[-1]])
        _, err = S.run(reg.register, at, it)
        S.check("C08", "registering succeeds", err is None, lambda: repr(err))
        new.append((at, it))
    agree("registering adds exactly one mapping, for the class and its subclasses")


def writing(S):
    """An object is written by applying each mapping in effect once and in order, whatever the mappings are."""
    from fastkml import registry as R
    from fastkml.enums import Verbosity
    q = S.params
    base = resolve(q)
    calls = []

    def set_element(obj, *, element, attr_name, node_name, precision, verbosity, default):
        calls.append((obj, precision, verbosity))
        element.append(S.el("call", attrs={"attr": attr_name, "node": node_name, "default": default}))

    def one(n):
        return R.RegistryItem(ns_ids=("kml",), classes=(str,), attr_name=S.text(n + ".attr"), node_name=S.text(n + ".node"),
                              get_kwarg=_unused, set_element=set_element, default=S.text(n + ".default"))

    p = S.choice("precision", [None, 0, 6])
    v = S.enum("verbosity", Verbosity)
    plain = base(**required(q))
    before, err = S.run(plain.etree_element, precision=p, verbosity=v)
    S.check("C08", "an object can be written", err is None, lambda: repr(err))
    items = S.seq("items", one)
    cls = type(base.__name__, (base,), {"__module__": base.__module__})
    o = cls(**required(q))
    if S.symbolic:
        own = list(R.registry.get(base))
        S.contract("fastkml.registry.Registry.get", lambda f, c: S.chain(own, items))
    else:
        for i in items:
            R.registry.register(cls, i)
    e, err = S.run(o.etree_element, precision=p, verbosity=v)
    S.check("C08", "an object of the subclass can be written", err is None, lambda: repr(err))
    with S.side("spec"):
        kids = S.chain(S.kids(before), S.map(lambda i: S.el("call", attrs={"attr": i.attr_name, "node": i.node_name, "default": i.default}), items))
        x = S.el(before.tag, text=S.text_of(before), attrs=dict(S.attrs_of(before)), children=kids)
    S.check("C08", "each mapping applied once, in order, with its own names and default", S.tree_eq(e, x), lambda: S.show(e, x))
    S.check("C08", "to the object, with the precision and verbosity asked for", all(a is o and b == p and c is v for a, b, c in calls), lambda: calls)


for q, kind, qk in extended_classes():
    REGISTRY.append(Harness(extension, f"extend:{short(q)}:{kind}", ["C08"], (), params=(q, kind, qk), cross=8))
for q in PUBLIC:
    REGISTRY.append(Harness(contents, f"contents:{short(q)}", ["C08"], (), params=q, cross=10))
    REGISTRY.append(Harness(writing, f"applied:{short(q)}", ["C08"], (), params=q, cross=10))
for q in PUBLIC:
    REGISTRY.append(Harness(custom, f"custom:{short(q)}", ["C08"], (), params=q, mode="concrete", pool=48, why="classes made at run time"))
REGISTRY.append(Harness(deep, "registry:deep", ["C08"], (), mode="concrete", pool=400, why="classes made at run time"))
REGISTRY.append(Harness(builtin, "registry:builtin", ["C08"], (), mode="concrete", pool=1, why="exhaustive over the classes"))
REGISTRY.append(Harness(late, "registry:late", ["C08"], (), mode="concrete", pool=100, why="classes made at run time"))
