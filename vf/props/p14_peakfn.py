"""P14: peak classification and durations, against wall-clock enumeration with datetime/zoneinfo."""
from hypothesis import strategies as st
import datetime as dt
import numpy as np
from .. import cal, gen, refpeak
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise

NM = {"15min": 9, "h": 20, "D": 45, "MS": 9, "QS": 4, "YS": 2}
TZ2 = [None, "Europe/Berlin", "Europe/London", "America/New_York", "Australia/Sydney", "UTC"]
ALL = ["15min", "h", "h", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"]


@st.composite
def cases(draw, freqs=tuple(ALL)):
    grid = draw(st.sampled_from([60, 60, 15, 60]))
    p = draw(refpeak.peakspec(grid, special=False))
    if draw(st.integers(0, 5)) == 0:
        p = {"l": None, "r": None, "wd": draw(st.sampled_from([[1, 2, 3, 4, 5], [6, 7], [3]]))}
    elif draw(st.integers(0, 4)) == 0 and not p.get("german"):  # around the hours of DST changes
        p["l"], p["r"] = draw(st.sampled_from([[120, None], [None, 120], [60, 120], [120, 180], [None, 180], [180, 1200], [60, None], [135, 165], [120, 150]]))
    f = draw(st.sampled_from(freqs))
    nm = dict(NM)
    if longest(p) == "15min":
        nm.update(MS=4, QS=1, YS=1)
    return {"p": p, "i": draw(gen.ispec((f,), nmax=nm))}


def special(p):
    return not (p["l"] is None and p["r"] is None and len(p["wd"]) == 7)


def longest(p):
    """Longest frequency whose periods are entirely peak or offpeak."""
    if p["l"] is None and p["r"] is None:
        return "D"
    return "h" if (p["l"] or 0) % 60 == 0 and (p["r"] or 0) % 60 == 0 else "15min"


def labels(case, ctx):
    p, s = case["p"], case["i"]
    ctx.label(s["freq"], longest(p), "DST" if cal.has_dst_change(s) else "no-DST", "sod" if s["sod"] != [0, 0] else "midnight")


def check_classify(case, ctx):
    p, s = case["p"], case["i"]
    if not special(p):
        must_raise(lambda: refpeak.build_peakfn(p), (ValueError,), "peak function without special case")
        ctx.label("no special case")
        return
    fn = refpeak.build_peakfn(p)
    i = gen.build_index(s)
    labels(case, ctx)
    if cal.order(s["freq"]) > cal.order(longest(p)):
        must_raise(lambda: fn(i), (ValueError,), f"peak function of {p} on {s['freq']} index")
        ctx.label("refused")
        ctx.nt()
        return
    got = fn(i)
    b = cal.bounds(s)
    exp = refpeak.is_peak(p, b[:-1], b[1:], s["tz"])
    same_index(got.index, b[:-1], s["freq"], s["tz"], "index of classification")
    g = np.asarray(got)
    assert g.dtype == bool, f"classification has type {g.dtype}"
    bad = np.flatnonzero(g != exp)
    assert not len(bad), f"{i[bad[0]]} classified as {'peak' if g[bad[0]] else 'offpeak'} with window {p}"
    ctx.nt(bool(exp.any() and not exp.all()))
    # the same function, for the same dates in another timezone or with another start-of-day, and then once more
    s2 = {**s, "tz": TZ2[(TZ2.index(s["tz"]) + 1 + len(b)) % len(TZ2)] if s["tz"] in TZ2 else None}
    if len(b) % 3 == 0:
        s2 = {**s, "sod": [(s["sod"][0] + 5) % 24, 0]}
    try:
        b2 = cal.bounds(s2)
        i2 = gen.build_index(s2)
    except Exception:  # start-of-day does not exist
        return
    bad = np.flatnonzero(np.asarray(fn(i2)) != refpeak.is_peak(p, b2[:-1], b2[1:], s2["tz"]))
    assert not len(bad), f"{i2[bad[0]]} wrongly classified with window {p}, after {i[0]}"
    assert (np.asarray(fn(i)) == exp).all(), f"classification changed, with window {p}"


def check_duration(case, ctx):
    from portfolyo.tools import peakfn
    p, s = case["p"], case["i"]
    if not special(p):
        return
    fn = refpeak.build_peakfn(p)
    i = gen.build_index(s)
    labels(case, ctx)
    b = cal.bounds(s)
    tz = s["tz"]
    total = np.diff(np.array(b)) / 3600
    peak, off = peakfn.peak_duration(i, fn), peakfn.offpeak_duration(i, fn)
    if longest(p) == "D" and s["sod"] != [0, 0] and s["freq"] not in cal.STEP:
        # daily function: a delivery day is classified by the weekday on which it starts
        exp = []
        for l, r in zip(b[:-1], b[1:]):
            x, h = l, 0
            while x < r:
                y = cal.period_of(x, "D", tz, s["sod"])[1]
                h += (y - x) / 3600 * (cal.wall(x, tz).isoweekday() in p["wd"])
                x = y
            exp.append(h)
    else:
        exp = [refpeak.peak_seconds(p, l, r, tz) / 3600 for l, r in zip(b[:-1], b[1:])]
    exp = np.array(exp)
    for what, d in (("peak", peak), ("offpeak", off)):
        same_index(d.index, b[:-1], s["freq"], tz, f"{what} duration")
    pk, of = mag(peak, "duration"), mag(off, "duration")
    close(pk, exp, "peak duration", atol=1e-9)
    close(of, total - exp, "offpeak duration", atol=1e-9)
    assert (pk >= 0).all() and (of >= 0).all(), "negative duration"
    close(pk + of, total, "peak + offpeak duration", atol=1e-9)
    ctx.nt(bool(((exp > 0) & (exp < total)).any()) or s["freq"] in ("15min", "h"))


@st.composite
def badcases(draw):
    return {"m": draw(st.integers(1, 1439)), "side": draw(st.sampled_from("lr")), "other": draw(st.sampled_from([None, 0, 12]))}


def check_bad(case, ctx):
    """Factory refuses times that are not on the quarter-hour, and accepts those that are."""
    import portfolyo as pf
    t = dt.time(case["m"] // 60, case["m"] % 60)
    o = None if case["other"] is None else dt.time(case["other"])
    args = (t, o) if case["side"] == "l" else (o, t)
    if case["m"] % 15:
        must_raise(lambda: pf.create_peakfn(*args), (ValueError,), f"window {args}")
        ctx.nt()
        ctx.label("refused")
    else:
        pf.create_peakfn(*args)
        ctx.label("accepted")


SUBS = [
    Sub("classify", lambda: cases(("15min", "h", "h", "h", "D", "D", "MS", "YS")), check_classify, 900,
        rule="window/weekday functions on an index; non-trivial if the index has both peak and offpeak periods, or is refused",
        examples=({"p": {"l": 120, "r": 1200, "wd": [1, 2, 3, 4, 5, 6, 7]}, "i": {"freq": "h", "tz": "Europe/Berlin", "sod": [0, 0], "start": [2024, 3, 30], "n": 3}},)),
    Sub("duration", cases, check_duration, 500,
        rule="peak and offpeak durations of each period of an index of any frequency; non-trivial if some period is partly peak"),
    Sub("factory", badcases, check_bad, 100, rule="peak windows at arbitrary minutes; non-trivial if not on the quarter-hour"),
]
