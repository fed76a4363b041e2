"""Independent comparison of objects, attribute by attribute of the table."""
from __future__ import annotations

from .base import CLASSES, qname, rows_of


def grouped(row, items):
    """Order a reader that collects kind by kind gives."""
    return [c for k in row.classes for c in items if qname(c) == k]


def values(S, row, a, b):
    if row.kind == "objlist":
        if S.symbolic:
            return S.eq(a, b)
        if len(a) != len(b):
            return False
        return S.conj(*[alike(S, x, y) for x, y in zip(a, grouped(row, b))])
    if row.kind == "obj":
        return alike(S, a, b)
    if row.kind == "dt" and not S.symbolic:
        return same_date(a, b)
    if row.kind == "dtlist" and not S.symbolic:
        return len(a) == len(b) and all(same_date(x, y) for x, y in zip(a, b))
    return S.eq(a, b)


def same_date(a, b):
    if a is None or b is None:
        return a is b
    if type(a) is not type(b) or a.resolution is not b.resolution or type(a.dt) is not type(b.dt):
        return False
    if a.dt != b.dt:
        return False
    return not hasattr(a.dt, "utcoffset") or a.dt.utcoffset() == b.dt.utcoffset()


def alike(S, a, b):
    """Same class, namespaces and attributes (lists up to grouping by kind)."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    q = qname(b)
    if qname(a) != q or q not in CLASSES:
        return False
    if S.symbolic and (hasattr(a, "_vf_name") or hasattr(b, "_vf_name")):
        return a is b
    rs = [S.eq(a.ns, b.ns), S.eq(dict(a.name_spaces), dict(b.name_spaces))]
    for r in rows_of(q):
        rs.append(values(S, r, getattr(a, r.attr, None), getattr(b, r.attr, None)))
    return S.conj(*rs)
