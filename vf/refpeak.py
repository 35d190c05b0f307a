"""Reference peak classification: wall-clock window on weekdays, computed with datetime/zoneinfo only."""
from __future__ import annotations
import datetime as dt
import numpy as np
from hypothesis import strategies as st
from . import cal


@st.composite
def peakspec(draw, grid=60, german=True, special=True):
    """{"l": minutes or None, "r": minutes or None, "wd": [isoweekdays]} or the 'german' one."""
    if german and draw(st.integers(0, 2)) == 0:
        return {"l": 480, "r": 1200, "wd": [1, 2, 3, 4, 5], "german": True}
    l = draw(st.one_of(st.none(), st.integers(1, 1440 // grid - 1).map(lambda x: x * grid)))
    r = draw(st.one_of(st.none(), st.integers(1, 1440 // grid - 1).map(lambda x: x * grid)))
    if l is not None and r is not None:
        if l == r:
            r = None
        else:
            l, r = min(l, r), max(l, r)
    wd = draw(st.sampled_from([[1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6, 7], [6, 7], [1], [7], [2, 4, 6], [1, 2, 3, 4, 5, 6]]))
    if special and l is None and r is None and len(wd) == 7:  # (is refused by the factory; see P14)
        r = 720
    return {"l": l, "r": r, "wd": wd}


def _t(m):
    return None if m is None else dt.time(m // 60, m % 60)


def build_peakfn(p):
    import portfolyo as pf
    if p is None:
        return None
    if p.get("german"):
        return pf.germanpower_peakfn
    key = (p["l"], p["r"], tuple(p["wd"]))  # one function per specification, used again and again (as in actual use)
    if key not in _FN:
        _FN[key] = pf.create_peakfn(_t(p["l"]), _t(p["r"]), p["wd"])
    return _FN[key]


_FN = {}


def is_peak(p, L, R, tz) -> np.ndarray:
    """Per delivery period [L,R): does it lie in the peak (judged by wall clock of its start)."""
    out = []
    for l in L:
        w = cal.wall(l, tz)
        m = w.hour * 60 + w.minute
        out.append(w.isoweekday() in p["wd"] and (p["l"] is None or m >= p["l"]) and (p["r"] is None or m < p["r"]))
    return np.array(out, dtype=bool)


def daily(p, e, tz, sod) -> bool:
    raise NotImplementedError


def peak_seconds(p, l, r, tz, step=900) -> int:
    """Duration of the peak part of [l, r), by enumerating quarter-hours (boundaries are multiples of a quarter-hour)."""
    if tz is None:
        e = np.arange(l, r, step)
        m = (e // 60) % 1440
        wd = (e // 86400 + 3) % 7 + 1
    else:
        e = np.arange(l, r, step)
        off = offsets(tz, l, r)
        o = np.zeros(len(e), dtype=np.int64)
        for start, sec in off:
            o[e >= start] = sec
        x = e + o
        m = (x // 60) % 1440
        wd = (x // 86400 + 3) % 7 + 1
    ok = np.isin(wd, p["wd"])
    if p["l"] is not None:
        ok &= m >= p["l"]
    if p["r"] is not None:
        ok &= m < p["r"]
    return int(ok.sum()) * step


def offsets(tz, l, r):
    """[(from_epoch, utcoffset seconds)] covering [l, r)."""
    z = cal.zone(tz)

    def off(e):
        return int(dt.datetime.fromtimestamp(e, z).utcoffset().total_seconds())
    out = [(l, off(l))]
    e = l
    while e < r:
        n = min(e + 86400, r)
        if off(n) != out[-1][1]:
            a, b = e, n
            while b - a > 1:
                c = (a + b) // 2
                if off(c) == out[-1][1]:
                    a = c
                else:
                    b = c
            out.append((b, off(b)))
        e = n
    return out
