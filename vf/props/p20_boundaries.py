"""P20: period boundaries (floor, ceil, right, left, trim, duration, boundary test), against the reference calendar."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from . import p07_downsample

FREQS = ["15min", "h", "D", "MS", "QS", "YS", "QS-FEB", "QS-MAR", "QS-APR", "QS-DEC", "YS-FEB", "YS-APR", "YS-OCT"]
TZS = [None, "Europe/Berlin", "Europe/Berlin", "Asia/Kolkata", "Europe/London", "America/New_York", "UTC", "Australia/Sydney"]


@st.composite
def stamps(draw):
    tz = draw(st.sampled_from(TZS))
    f = draw(st.sampled_from(FREQS))
    sod = draw(st.sampled_from([[0, 0], [6, 0], [5, 0], [22, 0]] + ([[5, 30], [23, 45], [0, 15]] if f not in cal.STEP else [])))
    d = cal.dt.date(*draw(gen.dates(tz)))
    how = draw(st.integers(0, 4))
    if how == 0:  # exactly at (or just next to) a day or longer boundary
        d = cal.floor_date(d, f)
        sec = draw(st.sampled_from([0, 0, 0, -1, 1, 900, -900, 3600, -3600]))
        e = cal.bound(d, sod, tz) + sec
    else:
        e = cal.bound(d, [0, 0], tz) + draw(st.one_of(st.integers(-8, 104).map(lambda x: x * 900), st.integers(-3600, 93600), st.integers(0, 8).map(lambda x: x * 1800)))
    return {"e": e, "us": draw(st.sampled_from([0, 0, 0, 0, 1, 500000])), "f": f, "tz": tz, "sod": sod, "n": draw(st.sampled_from([0, 0, 1, -1, 2, 5, -3]))}


def stamp(e, tz, us=0):
    ts = pd.Timestamp(e, unit="s", tz="UTC") + pd.Timedelta(us, "us")
    return ts.tz_convert(tz) if tz else ts.tz_localize(None)


def step(l, f, tz, sod, n):
    """Left-bound of the n-th next period."""
    if f in cal.STEP:
        return l + n * cal.STEP[f]
    d = cal.delivery_date(l, tz, sod)
    return cal.bound(cal.next_start(d, f, n), sod, tz)


def ambiguous_sod(l, tz):
    return False


def check_stamp(case, ctx):
    from portfolyo import tools
    import portfolyo as pf
    tz, f, sod, e = case["tz"], case["f"], tuple(case["sod"]), case["e"]
    ts = stamp(e, tz, case["us"])
    l, r = cal.period_of(e, f, tz, sod)
    on = l == e and case["us"] == 0
    so = cal.sod_time(sod)
    kw = dict(start_of_day=so) if so != cal.dt.time(0, 0) or e % 2 else {}
    ctx.label(f, tz, "boundary" if on else "inside", "seconds" if e % 900 or case["us"] else "round", "sod" if so != cal.dt.time(0) else "midnight")

    def eq(got, exp, what):
        assert isinstance(got, pd.Timestamp) and got == stamp(exp, tz) and str(got.tz) == str(ts.tz), f"{what} of {ts} ({f}, start-of-day {so}): got {got}, expected {stamp(exp, tz)}"
    n = case["n"]
    eq(tools.floor.stamp(ts, f, n, so), step(l, f, tz, sod, n), f"floor, future={n},")
    eq(tools.ceil.stamp(ts, f, n, so), step(l if on else r, f, tz, sod, n), f"ceil, future={n},")
    if n == 0:
        eq(tools.floor.stamp(ts, f, **kw), l, "floor")
        eq(tools.ceil.stamp(ts, f, **kw), l if on else r, "ceil")
        if kw != {"start_of_day": so}:  # midnight is the default
            assert bool(tools.isboundary.stamp(ts, f)) == on, f"isboundary of {ts} ({f}) without start-of-day"
    b = tools.isboundary.stamp(ts, f, so)
    assert bool(b) == on, f"isboundary of {ts} ({f}, start-of-day {so}): {b}"
    L = stamp(l, tz)
    eq(tools.right.stamp(L, f), r, f"right-bound of {L}")
    d = tools.duration.stamp(L, f)
    assert abs(d.to("h").magnitude - (r - l) / 3600) < 1e-9, f"duration of {L} ({f}): {d}"
    if not tz:
        ctx.nt(not on)
    else:
        ctx.nt(True)


# -- indices


@st.composite
def icases(draw):
    how = draw(st.sampled_from(["index", "series", "df", "unit"]))
    if draw(st.booleans()):
        spec, t = draw(p07_downsample.spans())
        return {"i": spec, "t": t, "as": how}
    f = draw(st.sampled_from(["15min", "h", "h", "D", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"]))
    spec = draw(gen.ispec((f,), nmax={"15min": 3, "h": 5, "D": 70, "MS": 26, "QS": 9, "YS": 4}))
    if spec["freq"] in ("15min", "h", "D") and draw(st.integers(0, 2)) == 0:  # make it likely that there is a full month
        spec["n"] = draw(st.integers(28, 66 if f != "15min" else 35))
    t = draw(st.sampled_from(["h", "D", "MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"]))
    return {"i": spec, "t": t, "as": how}


def nests(f, t):
    """Do periods of f (shorter or same) nest in periods of t?"""
    if cal.order(f) > cal.order(t):
        return False
    k = cal.kind(t)
    if cal.kind(f) == "QS":
        if k == "QS":
            return f == t
        return (cal.anchor(f) - cal.anchor(t)) % 3 == 0
    if cal.kind(f) == "YS":
        return f == t
    return True


def check_index(case, ctx):
    from portfolyo import tools
    s, t = case["i"], case["t"]
    i = gen.build_index(s)
    b = cal.bounds(s)
    L, R = b[:-1], b[1:]
    tz, sod = s["tz"], tuple(s["sod"])
    ctx.label(s["freq"], "DST" if cal.has_dst_change(s) else "no DST", "sod" if sod != (0, 0) else "midnight")
    right = tools.right.index(i)
    same_index(right, R, tz=tz, what="right-bound stamps")
    dur = tools.duration.index(i)
    same_index(dur.index, L, s["freq"], tz, "index of duration")
    close(mag(dur, "duration"), (np.array(R) - np.array(L)) / 3600, "duration", atol=1e-9)
    back = tools.righttoleft.index(right)
    same_index(back, L, tz=tz, what="left-bound stamps of right-bound stamps")
    fr = pd.Series(np.arange(len(i)) * 1.0, i)
    close(mag(tools.duration.frame(fr), "duration"), (np.array(R) - np.array(L)) / 3600, "duration of frame", atol=1e-9)
    sd = tools.startofday.get(i)
    assert (sd.hour, sd.minute) == sod, f"start-of-day {sd}, expected {sod}"
    assert tools.startofday.get(i, "str") == "%02d:%02d:00" % sod
    assert tools.startofday.get(i, "timedelta") == pd.Timedelta(hours=sod[0], minutes=sod[1])
    for mm in (15, 30, 45):
        late = i.tz_localize(None) + pd.Timedelta(minutes=mm)
        got = tuple(tools.startofday.get(late, x) for x in ("time", "str", "timedelta"))
        assert got == (cal.dt.time(sod[0], mm), "%02d:%02d:00" % (sod[0], mm), pd.Timedelta(hours=sod[0], minutes=mm)), f"start-of-day at {mm} past: {got}"
    # boundaries and trimming
    if not nests(s["freq"], t):
        return
    got = tools.isboundary.index(i, t)
    exp = [cal.period_of(l, t, tz, sod)[0] == l for l in L]
    g = np.asarray(got)
    assert list(g) == exp, f"isboundary for {t}: {i[np.flatnonzero(g != np.array(exp))[0]]} misjudged"
    m = model.M("P", s["freq"], tz, sod, L, R, cols={"p": np.arange(len(L)) * 1.0})
    keep = sorted(j for _, _, js in model.targets(m, t) for j in js)
    KL = [L[j] for j in keep]
    how = case["as"]
    if how == "index":
        out = tools.trim.index(i, t)
        same_index(out, KL, s["freq"], tz, f"trimmed to {t}")
    else:
        x = fr.astype("pint[MW]") if how == "unit" else pd.DataFrame({"a": fr, "b": fr * 2}) if how == "df" else fr
        out = tools.trim.frame(x, t)
        same_index(out.index, KL, s["freq"], tz, f"trimmed to {t}")
        if how == "df":
            assert list(out.columns) == ["a", "b"]
            close(out["b"], np.array(keep) * 2.0, "column of trimmed frame")
            out = out["a"]
        close(mag(out, "w" if how == "unit" else None), np.array(keep) * 1.0, "values of trimmed frame")
    ctx.label(f"trim to {t}", "nothing left" if not keep else "all" if len(keep) == len(L) else "part")
    ctx.nt(0 < len(keep) < len(L) or cal.has_dst_change(s))


@st.composite
def ssod(draw):
    f = draw(st.sampled_from(["15min", "h", "D", "MS", "QS", "YS", "QS-FEB"]))
    spec = draw(gen.ispec((f,), nmax={"15min": 4, "h": 6, "D": 20, "MS": 8, "QS": 5, "YS": 3}))
    if f in cal.STEP:
        spec["n"] = max(spec["n"], 2)
    if draw(st.integers(0, 3)) == 0:  # nearly a full, long or short, day must be dropped
        tz = draw(st.sampled_from(["Europe/Berlin", "Europe/London", "America/New_York", "Australia/Sydney"]))
        d = gen.dst_days(tz, draw(st.integers(2019, 2026)))[draw(st.integers(0, 1))]
        k = draw(st.integers(0, 2))
        new, d0 = draw(st.sampled_from([[0, 0], [0, 0], [22, 0], [6, 0]])), d - cal.dt.timedelta(days=k + draw(st.integers(0, 1)))
        return {"i": {"freq": draw(st.sampled_from(["15min", "15min", "h"])), "tz": tz, "sod": new, "start": [d0.year, d0.month, d0.day], "n": k + 1 + draw(st.integers(0, 1))},
                "new": new, "bad": None, "cut": [draw(st.sampled_from([0, 1, 4])), draw(st.sampled_from([1, 2, 4]))]}
    return {"i": spec, "new": draw(st.sampled_from([[0, 0], [6, 0], [5, 0], [17, 0], [22, 0]])), "bad": draw(st.sampled_from([None, None, None, None, [6, 10, 0], [6, 0, 30]])),
            "cut": [draw(st.integers(0, 99)), draw(st.integers(0, 99))] if draw(st.booleans()) else [0, 0]}


def check_setsod(case, ctx):
    """Setting the start-of-day: daily-or-longer periods keep their date, (quarter)hourly indices are cut to full days."""
    from portfolyo import tools
    s = case["i"]
    i = gen.build_index(s)
    if case["bad"]:
        must_raise(lambda: tools.startofday.set(i, cal.dt.time(*case["bad"])), (ValueError,), "start-of-day that is no quarter-hour")
        ctx.label("refused")
        return
    b = cal.bounds(s)
    new, tz = case["new"], s["tz"]
    if s["freq"] in cal.STEP:  # does not need to start and end with whole days
        x, y = (c * 900 // cal.STEP[s["freq"]] for c in case["cut"])
        if x + y >= len(i):
            return
        i, b = i[x:len(i) - y], b[x:len(b) - y]
        d0, d1 = cal.delivery_date(b[0], tz, [0, 0]), cal.delivery_date(b[-1], tz, [0, 0])
        lo, hi = cal.bound(d0, new, tz), cal.bound(d1, new, tz)
        if lo < b[0]:
            lo = cal.bound(cal.next_start(d0, "D"), new, tz)
        if hi > b[-1]:
            hi = cal.bound(cal.next_start(d1, "D", -1), new, tz)
        ctx.label("whole days" if case["cut"] == [0, 0] else "partial days")
        if hi <= lo:
            ctx.label("no full day")
            try:
                out = tools.startofday.set(i, cal.dt.time(*new))
            except (ValueError, IndexError):
                return
            assert len(out) == 0, f"no full day, got {len(out)} periods"
            return
    out = tools.startofday.set(i, cal.dt.time(*new))
    if s["freq"] in cal.STEP:
        exp = [x for x in b[:-1] if lo <= x < hi]
    else:
        exp = cal.bounds({**s, "sod": new})[:-1]
    same_index(out, exp, s["freq"], tz, f"start-of-day set to {new}")
    ctx.label(s["freq"], "same" if new == s["sod"] else "other", "DST" if cal.has_dst_change(s) else "no DST")
    ctx.nt(new != s["sod"])


SUBS = [
    Sub("stamp", stamps, check_stamp, 6000,
        rule="floor, ceil (with future steps), boundary test, right-bound and duration for a timestamp; non-trivial if timezone-aware or not on a boundary"),
    Sub("index", icases, check_index, 1500,
        rule="right-bound, left-bound, durations, boundary test and trimming of an index; non-trivial if trimming keeps a part, or there is a DST change"),
    Sub("startofday", ssod, check_setsod, 300, rule="changing the start-of-day; non-trivial if it is another one"),
]
