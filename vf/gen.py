"""Strategies (over plain JSON-able descriptors) and builders (descriptor -> pandas / portfolyo objects)."""
from __future__ import annotations
import calendar, datetime as dt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from . import cal
from .core import HarnessError

TZS = [None, "Europe/Berlin", "Europe/Berlin", "Europe/Berlin", "Asia/Kolkata", "Europe/London", "America/New_York",
       "UTC", "Australia/Sydney"]
SODS = [[0, 0], [0, 0], [6, 0], [6, 0], [5, 0], [9, 0], [22, 0]]
ALLFREQS = ["15min", "h", "D", "MS", "QS", "YS"]
ANCHORED = ["QS-FEB", "QS-MAR", "QS-APR", "QS-DEC", "YS-FEB", "YS-APR", "YS-JUL", "YS-OCT", "YS-DEC"]


def last_sunday(y, m):
    d = dt.date(y, m, calendar.monthrange(y, m)[1])
    return d - dt.timedelta(days=(d.weekday() + 1) % 7)


def nth_sunday(y, m, n):
    d = dt.date(y, m, 1)
    d += dt.timedelta(days=(6 - d.weekday()) % 7)
    return d + dt.timedelta(days=7 * (n - 1))


def dst_days(tz, y):
    if tz in ("Europe/Berlin", "Europe/London"):
        return [last_sunday(y, 3), last_sunday(y, 10)]
    if tz == "America/New_York":
        return [nth_sunday(y, 3, 2), nth_sunday(y, 11, 1)]
    if tz == "Australia/Sydney":
        return [nth_sunday(y, 4, 1), nth_sunday(y, 10, 1)]
    return [last_sunday(y, 3), last_sunday(y, 10)]


FIRSTS = {"America/New_York": [dt.date(2020, 11, 1), dt.date(2026, 11, 1)], "Australia/Sydney": [dt.date(2023, 10, 1)]}


@st.composite
def dates(draw, tz=None, years=(2019, 2026)):
    """A date, often near a DST change, a leap day, or a month/quarter/year boundary."""
    y = draw(st.integers(*years))
    how = draw(st.integers(0, 5))
    if how == 0:
        d = dst_days(tz, y)[draw(st.integers(0, 1))] + dt.timedelta(days=draw(st.integers(-3, 2)))
    elif how == 1:
        d = dt.date(y, 2, 28) + dt.timedelta(days=draw(st.integers(-2, 3)))
    elif how == 2:
        m = draw(st.integers(1, 12))
        d = dt.date(y, m, 1) + dt.timedelta(days=draw(st.integers(-3, 3)))
    elif how == 3 and tz in FIRSTS and draw(st.booleans()):  # DST change on the first day of a month
        d = cal.addmonths(draw(st.sampled_from(FIRSTS[tz])), draw(st.integers(-3, 0)))
    else:
        d = dt.date(y, draw(st.integers(1, 12)), draw(st.integers(1, 28)))
    return [d.year, d.month, d.day]


LONG = {"15min": 20, "h": 240, "D": 900, "MS": 84, "QS": 24, "YS": 7}


@st.composite
def ispec(draw, freqs=tuple(ALLFREQS), tzs=tuple(TZS), sods=tuple(map(tuple, SODS)), nmax=None, nmin=1, start=None,
          years=(2019, 2026), long=0):
    """Index descriptor. If `long` is set, one in so many spans is far longer than the others."""
    freq = draw(st.sampled_from(list(freqs)))
    tz = draw(st.sampled_from(list(tzs)))
    sod = list(draw(st.sampled_from(list(sods))))
    lim = {"15min": 3, "h": 5, "D": 45, "MS": 26, "QS": 13, "YS": 5}
    if nmax is not None:
        lim = nmax
    if long and draw(st.integers(0, long)) == long // 2:
        lim = LONG
        nmin = max(nmin, LONG[cal.kind(freq)] // 3)
    k = cal.kind(freq)
    n = draw(st.integers(nmin, max(nmin, lim[k])))
    if start is None:
        d = draw(dates(tz, years))
    else:
        d = start
    d = cal.floor_date(dt.date(*d), freq)
    n = min(n, (2037 - d.year) * {"YS": 1, "QS": 4, "MS": 12}.get(k, 300))  # (pandas knows no clock changes after 2037)
    return {"freq": freq, "tz": tz, "sod": sod, "start": [d.year, d.month, d.day], "n": n}


def build_index(spec, name=None) -> pd.DatetimeIndex:
    """Pandas index for the descriptor, verified against the reference calendar."""
    b = cal.bounds(spec)
    start = pd.Timestamp(*spec["start"], *spec["sod"])
    i = pd.date_range(start, periods=len(b) - 1, freq=spec["freq"], tz=spec["tz"], name=name)
    if epochs(i) != b[:-1]:
        raise HarnessError(f"pandas and reference calendar disagree on {spec}")
    return i


def epochs(i: pd.DatetimeIndex) -> list[int]:
    """Seconds since epoch of the timestamps (naive: as if UTC)."""
    return (i.as_unit("ns").asi8 // 10**9).tolist()


def sub_spec(spec, skip, n):
    """Descriptor of the part that starts after `skip` units and contains n units (days for short freqs)."""
    d = dt.date(*spec["start"])
    if spec["freq"] in cal.STEP or spec["freq"] == "D":
        d = d + dt.timedelta(days=skip)
    else:
        d = cal.next_start(d, spec["freq"], skip)
    return {**spec, "start": [d.year, d.month, d.day], "n": n}


# ---- values


def _num(sign):
    ints = {"any": st.integers(-400, 400), "pos": st.integers(1, 400), "nonneg": st.integers(0, 400),
            "nz": st.integers(1, 400).flatmap(lambda x: st.sampled_from([x, -x])), "neg": st.integers(-400, -1)}[sign]
    return ints.map(lambda x: x / 8)


@st.composite
def vals(draw, sign="any", maxpool=6):
    """Value descriptor: a small pool and a deterministic way to lay it out over any number of periods.
    All values are multiples of 1/8 so that sums are exact in floating point."""
    pool = draw(st.lists(_num(sign), min_size=1, max_size=maxpool))
    if sign in ("any", "nonneg") and draw(st.integers(0, 3)) == 0:
        pool = pool + [0.0]
    return {"pool": pool, "a": draw(st.integers(1, 7)), "b": draw(st.integers(0, 5)),
            "e": draw(st.sampled_from([0, 0, 0, 0, 3, -3]))}


def expand(v, n) -> np.ndarray:
    k = len(v["pool"])
    i = np.arange(n)
    idx = (v["a"] * i + v["b"] * (i // 5) + (i * i * v["b"]) // 3) % k
    scale = {0: 1.0, 3: 1024.0, -3: 1 / 1024}[v.get("e", 0)]
    return np.array(v["pool"], dtype=float)[idx] * scale


def series(spec, v, dtype=None, name=None) -> pd.Series:
    i = build_index(spec)
    s = pd.Series(expand(v, len(i)), i, name=name)
    return s.astype(dtype) if dtype else s
