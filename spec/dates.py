"""Reference reader of KML dates, written from XML Schema / ISO 8601."""
from __future__ import annotations

import datetime as dtm
import re

from vf.harness import Skip

_DATE = re.compile(r"([0-9]{4})(?:-?([0-9]{2})(?:-?([0-9]{2}))?)?\Z")
_FULL = re.compile(r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]{1,6}))?)?"
                   r"(Z|[+-][0-9]{2}:[0-9]{2})?\Z")


def fields(text):
    """("year"|"year_month"|"date"|"datetime", value) / "reject" / None when unspecified."""
    m = _DATE.match(text)
    if m:
        y, mo, d = m.groups()
        try:
            v = dtm.date(int(y), int(mo or 1), int(d or 1))
        except ValueError:
            return "reject"
        return ("date" if d else "year_month" if mo else "year"), v
    m = _FULL.match(text)
    if m:
        y, mo, d, H, M, s, f, z = m.groups()
        tz = dtm.timezone.utc
        if z and z != "Z":
            off = int(z[1:3]) * 60 + int(z[4:6])
            if int(z[4:6]) > 59 or off >= 24 * 60:
                return None
            tz = dtm.timezone(dtm.timedelta(minutes=off if z[0] == "+" else -off))
        if int(H) == 24 or (s and int(s) == 60):
            return None
        try:
            v = dtm.datetime(int(y), int(mo), int(d), int(H), int(M), int(s or 0), int((f or "0").ljust(6, "0")), tz)
        except ValueError:
            return "reject"
        return "datetime", v
    if not re.search(r"\d{4}", text):
        return "reject"
    return None


def read(text):
    from fastkml.enums import DateTimeResolution
    from fastkml.times import KmlDateTime
    r = fields(text)
    if r is None:
        raise Skip
    if r == "reject":
        return False, None
    k = KmlDateTime.__new__(KmlDateTime)
    k.dt, k.resolution = r[1], DateTimeResolution[r[0]]
    return True, k
