"""C06 (and C03 for date text): dates."""
from __future__ import annotations

import calendar
import datetime as dtm
import random

from vf.harness import Harness, REGISTRY

from . import dates, gen

RES = ("year", "year_month", "date", "datetime")


def res(name):
    from fastkml.enums import DateTimeResolution
    return None if name is None else DateTimeResolution[name]


def kml_date(*a):
    from fastkml.times import KmlDateTime
    return KmlDateTime(*a)


def truncated(d, r):
    """The value a date has to have at a resolution."""
    stamp = isinstance(d, dtm.datetime)
    if r is None:
        r = "datetime" if stamp else "date"
    if r == "datetime" and not stamp:
        r = "date"
    if r == "datetime":
        return d, r
    return dtm.date(d.year, d.month if r != "year" else 1, d.day if r == "date" else 1), r


def iso(v, r):
    """The ISO text of a date at a resolution."""
    if r == "year":
        return f"{v.year:04d}"
    if r == "year_month":
        return f"{v.year:04d}-{v.month:02d}"
    s = f"{v.year:04d}-{v.month:02d}-{v.day:02d}"
    if r == "date":
        return s
    s += f"T{v.hour:02d}:{v.minute:02d}:{v.second:02d}"
    if v.microsecond:
        s += f".{v.microsecond:06d}"
    off = v.utcoffset()
    if off is not None:
        m = int(off.total_seconds()) // 60
        sec = int(off.total_seconds()) % 60
        s += ("-" if m < 0 else "+") + f"{abs(m) // 60:02d}:{abs(m) % 60:02d}"
        assert not sec
    return s


def same_value(a, b):
    if type(a) is not type(b) or a != b:
        return False
    if isinstance(a, dtm.datetime):
        return a.utcoffset() == b.utcoffset() and a.replace(tzinfo=None) == b.replace(tzinfo=None)
    return True


def one(S, d, r, aware=True):
    """A date made from d at resolution r: value, text, reading back."""
    from fastkml.times import KmlDateTime
    want, wr = truncated(d, r)
    k, err = S.run(lambda: KmlDateTime(d, res(r)))
    S.check("C06", "a date can be made", err is None, lambda: (d, r, err))
    S.check("C06", "truncated to its resolution", same_value(k.dt, want) and k.resolution is res(wr), lambda: (d, r, k))
    S.check("C06 C19", "a date has content", bool(k) is True)
    t, err = S.run(lambda: str(k))
    S.check("C06", "text is the ISO form of the resolution", err is None and t == iso(want, wr), lambda: (d, r, t, iso(want, wr)))
    back, err = S.run(KmlDateTime.parse, t)
    S.check("C06", "the text of a date can be read", err is None, lambda: (t, err))
    S.check("C06", "same resolution after reading", back.resolution is k.resolution, lambda: (t, back))
    if aware or wr != "datetime":
        S.check("C06", "same value and offset after reading", same_value(back.dt, k.dt), lambda: (t, back))
        S.check("C06 C10", "equal after reading", back == k and k == back and not k != back, lambda: (t, back))
    S.check("C06", "same text after reading", str(back) == t if aware or wr != "datetime" else True)


def every_date(S):
    """All calendar days of some years (all years together: the whole domain)."""
    from fastkml.times import KmlDateTime
    lo, hi, step = S.params
    for y in range(lo, hi, step):
        one(S, dtm.date(y, 1, 1), "year")
        for m in range(1, 13):
            one(S, dtm.date(y, m, 1), "year_month")
            n = calendar.monthrange(y, m)[1]
            for d in range(1, n + 1):
                k = KmlDateTime(dtm.date(y, m, d))
                t = f"{y:04d}-{m:02d}-{d:02d}"
                b = KmlDateTime.parse(t)
                if str(k) != t or b.dt != k.dt or b.resolution is not k.resolution or not b == k:
                    one(S, dtm.date(y, m, d), "date")
            one(S, dtm.date(y, m, n), "date")
            for d in (0, n + 1, 32, 99):
                rejected(S, f"{y:04d}-{m:02d}-{d:02d}")
        for m in (0, 13, 20, 99):
            rejected(S, f"{y:04d}-{m:02d}")
            rejected(S, f"{y:04d}-{m:02d}-01")


def rejected(S, t):
    from fastkml.times import KmlDateTime
    k, err = S.run(KmlDateTime.parse, t)
    S.check("C06", "text that is no valid calendar date is rejected", k is None, lambda: (t, k))
    S.check("C03", "a malformed date is a value error", k is not None or err is None or isinstance(err, ValueError), lambda: (t, repr(err)))


# -- deductive part: arbitrary dates ---------------------------------------------


def cut(f, r):
    """Fields of a date at a resolution."""
    stamp = f[0] == "datetime"
    if r is None:
        r = "datetime" if stamp else "date"
    if r == "datetime" and not stamp:
        r = "date"
    if r == "datetime":
        return f, r
    return ("date", f[1], f[2] if r != "year" else 1, f[3] if r == "date" else 1), r


def iso_text(S, f, r):
    """The ISO text of these fields."""
    out = [S.digits(f[1], 4)]
    if r != "year":
        out += ["-", S.digits(f[2], 2)]
    if r in ("date", "datetime"):
        out += ["-", S.digits(f[3], 2)]
    if r == "datetime":
        out += ["T", S.digits(f[4], 2), ":", S.digits(f[5], 2), ":", S.digits(f[6], 2)]
        if S.yes(S.ne(f[7], 0)):
            out += [".", S.digits(f[7], 6)]
        if f[8] is not None:
            neg = S.yes(f[8] < 0)
            a = -f[8] if neg else f[8]
            out += ["-" if neg else "+", S.digits(S.floordiv(a, 60), 2), ":", S.digits(S.mod(a, 60), 2)]
    return S.cat(*out)


def whole(f):
    return tuple(int(x) if isinstance(x, float) else x for x in f)


def any_date(S):
    """Every date at every resolution: value, text and reading back."""
    from fastkml.times import KmlDateTime
    kind, r = S.params
    S.dates()
    d = S.date("d") if kind == "date" else S.stamp("d", aware=kind == "aware")
    f = whole(S.date_fields(d))
    want, wr = cut(f, r)
    k, err = S.run(KmlDateTime, d, res(r)) if r is not None else S.run(KmlDateTime, d)
    S.check("C06", "a date can be made", err is None, lambda: (d, r, err))
    if err is not None:
        return
    S.check("C06", "truncated to its resolution", S.eq(whole(S.date_fields(k.dt)), want), lambda: (d, r, k))
    S.check("C06", "with that resolution", k.resolution is res(wr), lambda: (d, r, k))
    S.check("C06 C19", "a date has content", S.yes(S.truth(k)))
    t, err = S.run(k.__str__)
    S.check("C06", "a date has a text", err is None, lambda: repr(err))
    if err is not None:
        return
    with S.side("spec"):
        text = iso_text(S, want, wr)
    S.check("C06", "text is the ISO form of the resolution", S.eq(t, text), lambda: (d, r, t, text))
    back, err = S.run(KmlDateTime.parse, text)
    S.check("C06", "the text of a date can be read", err is None, lambda: (t, err))
    if err is not None:
        return
    S.check("C06", "same resolution after reading", back.resolution is k.resolution, lambda: (t, back))
    if wr == "datetime" and want[8] is None:
        want = (*want[:8], 0)      # a date-time without offset is read as UTC
    S.check("C06", "same value and offset after reading", S.eq(whole(S.date_fields(back.dt)), want), lambda: (t, back))
    if f[-1] is not None:
        for a, b in ((back, k), (k, back)):
            r, err = S.run(a.__eq__, b)
            S.check("C06 C10", "equal after reading", err is None and S.yes(r), lambda: (t, back))
    again, err = S.run(KmlDateTime.parse, text)
    S.check("C06 C16", "reading again gives the same", err is None and S.yes(S.eq(whole(S.date_fields(again.dt)), want)))


DATE_SHAPES = ("Y", "Y-M", "Y-M-D", "YM", "YMD", "Y-MD", "YM-D")
STAMP_SHAPES = ("Y-M-DTh:m:sZ", "Y-M-DTh:m:s+o:p", "Y-M-DTh:m:s-o:p", "Y-M-DTh:m:s.uZ", "Y-M-DTh:m:s.u-o:p", "Y-M-DTh:m:s", "Y-M-DTh:mZ")
OTHER_SHAPES = ("Y-", "Y-M-", "-Y", "Y-M-D-", "Y/M/D", "Y M", "Y-M-DT", "Y-M-DTh", "M:D", "TY", "Y-M-Dx", "Y.M", "YMDTh", "M-Y", "YY", "D")
WIDTH = {"Y": 4, "u": 6}


def any_text(S):
    """Every text of some shape: read with its value, or refused."""
    from fastkml.times import KmlDateTime
    shape = S.params
    S.dates()
    f, parts = {}, []
    for i, ch in enumerate(shape):
        if ch in "YMDhmsuop" and not (ch == "x"):
            w = WIDTH.get(ch, 2)
            hi = {"h": 23, "m": 59, "s": 59, "o": 23, "p": 59}.get(ch, 10 ** w - 1)
            v = S.int(f"{ch}{i}", 0, hi)
            f[ch] = v
            parts.append(S.digits(v, w))
        else:
            parts.append(ch)
    text = S.cat(*parts)
    k, err = S.run(KmlDateTime.parse, text)
    S.check("C03", "reading a text gives a date or a value error", err is None or isinstance(err, ValueError), lambda: (text, repr(err)))
    if shape in OTHER_SHAPES:
        if shape in ("Y-", "Y-M-"):
            S.check("C06", "text that is no valid calendar date is rejected", k is None, lambda: (text, k))
        return
    ok = S.is_day(f["Y"], f.get("M", 1), f.get("D", 1))
    S.check("C06", "a valid date is read, text that is no valid calendar date is rejected", S.iff(err is None and k is not None, ok),
            lambda: (text, k, repr(err)))
    if k is None or not S.yes(ok):
        return
    if "T" in shape:
        off = 0
        if "o" in f:
            off = (f["o"] * 60 + f["p"]) * (-1 if "-o" in shape else 1)
        want, r = ("datetime", f["Y"], f["M"], f["D"], f["h"], f["m"], f.get("s", 0), f.get("u", 0), off), "datetime"
    else:
        want, r = ("date", f["Y"], f.get("M", 1), f.get("D", 1)), "date" if "D" in f else "year_month" if "M" in f else "year"
    S.check("C06", "with its value", S.eq(whole(S.date_fields(k.dt)), want), lambda: (text, k, want))
    S.check("C06", "and its resolution", k.resolution is res(r), lambda: (text, k, want))


def any_two(S):
    """Dates are equal exactly when value and resolution agree."""
    from fastkml.times import KmlDateTime
    S.dates()
    ka, kb = S.choice("kinds", [("date", "date"), ("date", "aware"), ("aware", "naive"), ("naive", "naive")])
    ra, rb = S.choice("ra", RES), S.choice("rb", RES)
    a = S.date("a") if ka == "date" else S.stamp("a", ka == "aware")
    b = S.date("b") if kb == "date" else S.stamp("b", kb == "aware")
    x, err = S.run(KmlDateTime, a, res(ra))
    y, err2 = S.run(KmlDateTime, b, res(rb))
    S.check("C06", "dates can be made", err is None and err2 is None)
    if err is not None or err2 is not None:
        return
    (fa, ra), (fb, rb) = cut(whole(S.date_fields(a)), ra), cut(whole(S.date_fields(b)), rb)
    want = S.conj(ra == rb, S.eq(fa, fb))
    r, err = S.run(x.__eq__, y)
    S.check("C06 C10", "equal exactly when value and resolution agree", err is None and S.yes(S.iff(r, want)), lambda: (x, y, r))


for kind in ("date", "aware", "naive"):
    for r in (None, *RES):
        REGISTRY.append(Harness(any_date, f"dates:any:{kind}:{r or 'default'}", ["C06"], (), params=(kind, r), cross=150, pool=600))
for shape in DATE_SHAPES + STAMP_SHAPES + OTHER_SHAPES:
    REGISTRY.append(Harness(any_text, f"dates:read:{shape}", ["C06", "C03"] if shape not in OTHER_SHAPES[2:] else ["C03"], (), params=shape, cross=120, pool=400))
REGISTRY.append(Harness(any_two, "dates:two", ["C06", "C10"], (), cross=200, pool=600))


OFFSETS = [0, 1, -1, 5, 30, -30, 45, 59, 60, -60, 61, 330, 345, -210, -570, 720, -720, 765, 840, 839, -839, 1439, -1439]
STAMPS = [(1, 1, 1), (1, 1, 2), (99, 12, 31), (999, 6, 15), (1000, 1, 1), (1582, 10, 15), (1899, 12, 31), (1900, 2, 28), (1970, 1, 1),
          (2000, 2, 29), (2024, 2, 29), (2024, 12, 31), (9998, 12, 31), (9999, 12, 30), (9999, 12, 31)]
TIMES = [(0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0), (0, 1, 0, 0), (1, 0, 0, 0), (12, 30, 45, 500000), (23, 59, 59, 0), (23, 59, 59, 999999),
         (9, 5, 7, 123456), (10, 0, 0, 100000), (0, 0, 0, 120)]


def zone(S, minutes):
    how = S.choice("tz", ["timezone", "dateutil", "arrow"])
    if how == "timezone":
        return dtm.timezone(dtm.timedelta(minutes=minutes))
    from dateutil import tz
    if how == "arrow" and not minutes:
        return tz.tzutc()
    return tz.tzoffset(None, minutes * 60)


def stamps(S):
    """Date-times with an offset: instant, offset and text survive."""
    off = S.choice("off", OFFSETS)
    y, m, d = S.choice("day", STAMPS) if S.bool("edge") else (S.int("y", 1, 9999), S.int("m", 1, 12), S.int("d", 1, 28))
    t = S.choice("time", TIMES) if S.bool("edge2") else (S.int("H", 0, 23), S.int("M", 0, 59), S.int("S", 0, 59), S.int("us", 0, 999999))
    v = dtm.datetime(y, m, d, *t, tzinfo=zone(S, off))
    r = S.choice("res", [None, *RES])
    one(S, v, r)
    naive = v.replace(tzinfo=None)
    one(S, naive, r, aware=False)
    one(S, v.date(), r)


def reading(S):
    """Texts near a date: accepted or rejected as the calendar says."""
    from fastkml.times import KmlDateTime
    r = S.src.r
    t = S.src.literal("t", DT, S).strip() if r.random() < 0.4 else near(r)
    S.record["t"] = t
    want = dates.fields(t)
    k, err = S.run(KmlDateTime.parse, t)
    S.check("C03", "reading a text gives a date or a value error", err is None or isinstance(err, ValueError), lambda: (t, repr(err)))
    if want is None:
        return
    if want == "reject":
        S.check("C06", "text that is no valid calendar date is rejected", k is None, lambda: (t, k))
        return
    S.check("C06", "a valid date is read", err is None and k is not None, lambda: (t, repr(err)))
    S.check("C06", "with its value and resolution", k.resolution is res(want[0]) and same_value(k.dt, want[1]), lambda: (t, k, want))


class DT:
    kind = "dt"
    is_attr = False


def near(r):
    y, m, d = r.choice([r.randint(0, 9999), r.choice([1, 4, 100, 400, 999, 1900, 2000, 9999])]), r.randint(0, 14), r.randint(0, 33)
    H, M, s = r.choice([0, 23, 24, 25, r.randint(0, 23)]), r.choice([0, 59, 60, r.randint(0, 59)]), r.choice([0, 59, 60, 61])
    date = r.choice([f"{y:04d}", f"{y:04d}-{m:02d}", f"{y:04d}-{m:02d}-{d:02d}", f"{y:04d}{m:02d}", f"{y:04d}{m:02d}{d:02d}",
                     f"{y}-{m}-{d}", f"{y:04d}-{m:02d}-", f"{y:04d}-", f"-{y:04d}", f"{y:05d}", f"{y:04d}-{m:02d}{d:02d}", f"{y % 100:02d}"])
    if r.random() < 0.5:
        return date
    f = r.choice(["", "", ".5", ".123456", ".000001", ".", ".1234567"])
    z = r.choice(["", "Z", "+01:00", "-05:30", "+14:00", "+0100", "z", "+24:00", "-00:00", " "])
    return f"{y:04d}-{m:02d}-{d:02d}" + r.choice(["T", "T", "T", " ", "t"]) + f"{H:02d}:{M:02d}:{s:02d}{f}{z}"


def comparing(S):
    """Dates are equal exactly when value and resolution agree."""
    a, b = gen.kdt(S, "a"), gen.kdt(S, "b")
    if S.bool("near"):
        b = kml_date(a.dt, S.choice("r2", [None, *res_all()]))
    want = a.dt == b.dt and a.resolution is b.resolution if type(a.dt) is type(b.dt) else False
    S.check("C06 C10", "equal exactly when value and resolution agree", (a == b) == want and (b == a) == want and (a != b) != want,
            lambda: (a, b))
    for x in (None, 1, "2000", a.dt, str(a)):
        S.check("C10", "a date never equals something else", (a == x) is False)
    S.check("C11", "representation evaluates to an equal date", eval(repr(a), __import__("spec.whole", fromlist=["x"]).scope()) == a,
            lambda: repr(a))


def res_all():
    from fastkml.enums import DateTimeResolution
    return list(DateTimeResolution)


for k in range(8):
    REGISTRY.append(Harness(every_date, f"dates:calendar.{k}", ["C06"], (), params=(1 + k, 10000, 8), mode="concrete", pool=1,
                            backend="lxml", weight=9, why="every calendar day of the years 1 to 9999: exhaustive"))
REGISTRY.append(Harness(stamps, "dates:stamps", ["C06"], (), mode="concrete", pool=1500, why="calendar arithmetic of the standard library"))
REGISTRY.append(Harness(reading, "dates:text", ["C06", "C03"], (), mode="concrete", pool=3000, why="text parsing in arrow"))
REGISTRY.append(Harness(comparing, "dates:equal", ["C06", "C10", "C11"], (), mode="concrete", pool=300, why="datetime comparison"))
