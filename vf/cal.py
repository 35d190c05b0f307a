"""Independent reference calendar: delivery periods computed with datetime and zoneinfo only.

An index is described by a JSON-able spec
    {"freq": "h", "tz": "Europe/Berlin" | None, "sod": [6, 0], "start": [2020, 3, 28], "n": 3}
where n counts days for quarterhourly/hourly indices, and periods otherwise. For monthly and longer
frequencies, `start` must be the first day of such a period.
"""
from __future__ import annotations
import datetime as dt
from functools import lru_cache
from zoneinfo import ZoneInfo

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1)
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]
STEP = {"15min": 900, "h": 3600}


@lru_cache(maxsize=None)
def zone(tz):
    return None if tz is None else ZoneInfo(tz)


def epoch(wall: dt.datetime, tz, fold: int = 0) -> int:
    """Wall-clock (naive) -> seconds since epoch (for tz None: as if UTC)."""
    if tz is None:
        return int((wall - EPOCH).total_seconds())
    return int(wall.replace(tzinfo=zone(tz), fold=fold).timestamp())


def wall(e: int, tz) -> dt.datetime:
    if tz is None:
        return EPOCH + dt.timedelta(seconds=e)
    return dt.datetime.fromtimestamp(e, zone(tz)).replace(tzinfo=None, fold=0)


def exists(w: dt.datetime, tz) -> bool:
    return tz is None or wall(epoch(w, tz), tz) == w


def ambiguous(w: dt.datetime, tz) -> bool:
    return tz is not None and exists(w, tz) and epoch(w, tz, 0) != epoch(w, tz, 1)


def kind(freq: str) -> str:
    return freq.split("-")[0]


def anchor(freq: str) -> int:
    """Month (1..12) in which a year/quarter starts."""
    return MONTHS.index(freq.split("-")[1]) + 1 if "-" in freq else 1


def addmonths(d: dt.date, n: int) -> dt.date:
    m = d.year * 12 + d.month - 1 + n
    return dt.date(m // 12, m % 12 + 1, 1)


def is_start(d: dt.date, freq: str) -> bool:
    k = kind(freq)
    if k in ("15min", "h", "D"):
        return True
    if d.day != 1:
        return False
    if k == "MS":
        return True
    if k == "QS":
        return (d.month - anchor(freq)) % 3 == 0
    return d.month == anchor(freq)


def next_start(d: dt.date, freq: str, n: int = 1) -> dt.date:
    k = kind(freq)
    if k == "D":
        return d + dt.timedelta(days=n)
    return addmonths(d, n * {"MS": 1, "QS": 3, "YS": 12}[k])


def floor_date(d: dt.date, freq: str) -> dt.date:
    k = kind(freq)
    if k in ("15min", "h", "D"):
        return d
    d = d.replace(day=1)
    while not is_start(d, freq):
        d = addmonths(d, -1)
    return d


def sod_time(sod) -> dt.time:
    return dt.time(*sod)


def bound(d: dt.date, sod, tz) -> int:
    return epoch(dt.datetime.combine(d, sod_time(sod)), tz)


def end_date(spec) -> dt.date:
    d = dt.date(*spec["start"])
    if spec["freq"] in STEP:
        return d + dt.timedelta(days=spec["n"])
    return next_start(d, spec["freq"], spec["n"])


def bounds(spec) -> list[int]:
    """Epoch seconds of all period boundaries (n+1 values)."""
    tz, sod, f = spec["tz"], spec["sod"], spec["freq"]
    d0 = dt.date(*spec["start"])
    if f in STEP:
        return list(range(bound(d0, sod, tz), bound(end_date(spec), sod, tz) + 1, STEP[f]))
    out = [bound(d0, sod, tz)]
    d = d0
    for _ in range(spec["n"]):
        d = next_start(d, f)
        out.append(bound(d, sod, tz))
    return out


def delivery_date(e: int, tz, sod) -> dt.date:
    """Date of the delivery day that contains the instant."""
    w = wall(e, tz)
    d = w.date()
    return d if e >= bound(d, sod, tz) else d - dt.timedelta(days=1)


def period_of(e: int, freq: str, tz, sod) -> tuple[int, int]:
    """(left, right) of the period of a (day-or-longer) frequency that contains the instant."""
    if freq in STEP:
        # sub-daily periods tile the day from start-of-day in steps of absolute time
        d = delivery_date(e, tz, sod)
        l0 = bound(d, sod, tz)
        s = STEP[freq]
        left = l0 + (e - l0) // s * s
        return left, left + s
    d = floor_date(delivery_date(e, tz, sod), freq)
    return bound(d, sod, tz), bound(next_start(d, freq), sod, tz)


def order(freq: str) -> int:
    return ["15min", "h", "D", "MS", "QS", "YS"].index(kind(freq))


def has_dst_change(spec) -> bool:
    b = bounds(spec)
    if spec["tz"] is None:
        return False
    z = zone(spec["tz"])
    offs = {dt.datetime.fromtimestamp(x, z).utcoffset() for x in (b if len(b) < 100 else b[:: max(1, len(b) // 100)] + [b[-1]])}
    return len(offs) > 1
