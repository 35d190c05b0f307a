"""P21: standardizing any faithful description of gapless data; refusing everything else."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from . import p22_tzone
from .p22_tzone import to_agnostic

TZ = [None, "Europe/Berlin", "Europe/Berlin", "Asia/Kolkata", "Europe/London", "America/New_York", "UTC", "Australia/Sydney"]
ALL = ["15min", "h", "h", "h", "D", "D", "MS", "QS", "YS", "QS-FEB", "QS-APR", "YS-APR"]


@st.composite
def cases(draw, long=False):
    tz = draw(st.sampled_from(TZ))
    spec = draw((p22_tzone.longspan if long else p22_tzone.span)(tz))
    if tz is None or draw(st.integers(0, 3)) == 0:
        spec["n"] = max(spec["n"], 3)
    c = draw(p22_tzone.data(spec))
    c["nofreq"] = draw(st.booleans())
    c["bound"] = draw(st.sampled_from(["left", "left", "right"]))
    rep = ["same"]
    if tz:
        rep += ["same", "zoneinfo", "dateutil", "fixed"] if tz != "UTC" else ["zoneinfo", "stdlib"]
        if spec["freq"] in ("15min", "h"):
            rep += ["wall", "wall", "wall"]
    else:
        rep += ["text"]
    c["rep"] = draw(st.sampled_from(rep))
    c["how"] = draw(st.sampled_from(["A", "B"]))
    c["force"] = draw(st.sampled_from([None, "aware", "agnostic"]))
    c["iname"] = draw(st.sampled_from([None, "ts_left", "time"]))
    return c


def describe(case):
    """The frame, described in the way the case asks for; and its values."""
    s, x = p22_tzone.frame({**case, "nofreq": False})
    spec = case["i"]
    tz = spec["tz"]
    b = cal.bounds(spec)
    i = s.index
    E = b[:-1]
    if case["bound"] == "right":
        E = b[1:]
        i = pd.DatetimeIndex([pd.Timestamp(e, unit="s", tz="UTC") for e in E])
        i = i.tz_convert(tz) if tz else i.tz_localize(None)
        if len(E) > 2 or spec["freq"] in cal.STEP or spec["freq"] == "D":
            i.freq = spec["freq"]
    rep = case["rep"]
    if rep == "zoneinfo":
        import zoneinfo
        f = i.freq
        i = i.tz_convert(zoneinfo.ZoneInfo(tz))
        i.freq = f
    elif rep == "dateutil":
        import dateutil.tz
        i = i.tz_convert(dateutil.tz.gettz(tz))
    elif rep == "stdlib":
        i = i.tz_convert(cal.dt.timezone.utc)
    elif rep == "wall":
        if case["bound"] == "right" and case["how"] == "A":  # left-bound wall-clock time plus duration
            i = s.index.tz_localize(None) + pd.Timedelta(seconds=cal.STEP[spec["freq"]])
        else:
            i = i.tz_localize(None)
        i = pd.DatetimeIndex(list(i))
    elif rep == "text":
        i = pd.Index([str(ts) for ts in i])
    if case["nofreq"] and isinstance(i, pd.DatetimeIndex):
        i = pd.DatetimeIndex(list(i))
    return s.set_axis(i.rename(case["iname"])), x


def freq_known(case):
    """Can the frequency be found?"""
    spec = case["i"]
    n = len(cal.bounds(spec)) - 1
    s, _ = describe(case)
    return (isinstance(s.index, pd.DatetimeIndex) and s.index.freq is not None) or n >= 3


def expected_freq(case):
    f = case["i"]["freq"]
    return f


def same_freq(got, f):
    """Quarters in April, July, ... are the same quarters as those in January."""
    g = pd.tseries.frequencies.to_offset(f)
    if got == g:
        return True
    q = pd.tseries.offsets.QuarterBegin
    return isinstance(got, q) and isinstance(g, q) and got.startingMonth % 3 == g.startingMonth % 3


def check_std(case, ctx):
    import portfolyo as pf
    spec = case["i"]
    tz, rep = spec["tz"], case["rep"]
    if rep == "fixed":
        rep = case["rep"] = "same"
    s, x = describe(case)
    if not freq_known(case):
        return
    before = s.index.copy()
    L = cal.bounds(spec)[:-1]
    kw = {}
    force = case["force"]
    dst = spec["freq"] in cal.STEP and cal.has_dst_change(spec)
    if rep == "wall":
        kw["tz"] = tz
        # without DST-change in it, wall-clock data is agnostic data
        if force is None or force == "agnostic":
            T, pos = to_agnostic(spec)
            etz = None
        else:
            T, pos, etz = L, np.arange(len(L)), tz
    elif tz is None:
        kw["tz"] = "Europe/Berlin" if force == "aware" else None
        if force == "aware":
            T, pos = p22_tzone.to_aware(spec, "Europe/Berlin")
            etz = "Europe/Berlin"
        else:
            T, pos, etz = L, np.arange(len(L)), None
    elif force == "agnostic":
        T, pos = to_agnostic(spec)
        etz = None
    else:
        if force == "aware":
            if rep == "dateutil":
                return  # other name of the timezone
            kw["tz"] = tz
        T, pos, etz = L, np.arange(len(L)), tz if rep not in ("dateutil",) else Ellipsis
    if rep == "wall" and dst and case["bound"] == "right" and case["how"] == "A" and spec["freq"] == "15min":
        pass
    out = pf.standardize(s, force, case["bound"], **kw)
    what = f"standardized ({rep}, {case['bound']}-bound, force={force})"
    if rep == "stdlib":
        etz = Ellipsis if etz else None
    same_index(out.index, T, tz=etz, what=what)
    assert out.index.freq is not None and same_freq(out.index.freq, spec["freq"]), f"{what}: frequency {out.index.freq}, expected {spec['freq']}"
    assert out.index.name == "ts_left", f"{what}: name of index is {out.index.name}"
    p22_tzone.values(out, case, x, pos, what)
    assert s.index.equals(before) and s.index.name == before.name, "input changed"
    # already standardized: nothing changes
    again = pf.standardize(out)
    same_index(again.index, T, tz=etz, what=what + " twice")
    p22_tzone.values(again, case, x, pos, what + " twice")
    ctx.label(spec["freq"], rep, case["bound"], f"force {force}", "DST in data" if dst else "", "freq set" if getattr(s.index, "freq", None) else "no freq")
    ctx.nt(case["bound"] == "right" or rep != "same" or getattr(s.index, "freq", None) is None or force is not None)


# -- the same, through a portfolio line


@st.composite
def linecases(draw):
    c = draw(cases())
    c["bound"] = "left"
    c["as"] = "series"
    c["rep"] = draw(st.sampled_from(["same", "zoneinfo"])) if c["i"]["tz"] else "same"
    c["i"]["n"] = max(c["i"]["n"], 3)
    c["dim"] = draw(st.sampled_from("wqpr"))
    return c


def check_line(case, ctx):
    """A portfolio line made from any acceptable description has the periods and values of the description."""
    import portfolyo as pf
    spec = case["i"]
    s, x = describe(case)
    if s.index.freq is None:
        s = pf.standardize(s)
    pfl = pf.PfLine({case["dim"]: s})
    same_index(pfl.index, cal.bounds(spec)[:-1], what="index of line")
    assert same_freq(pfl.index.freq, spec["freq"]), f"frequency {pfl.index.freq}, expected {spec['freq']}"
    close(mag(getattr(pfl, case["dim"]), case["dim"]), x, case["dim"])
    ctx.label(spec["freq"], case["rep"], "no freq" if case["nofreq"] else "freq set")
    ctx.nt(case["nofreq"] or case["rep"] != "same")


# -- refusal


@st.composite
def badcases(draw):
    tz = draw(st.sampled_from(TZ))
    spec = draw(p22_tzone.span(tz))
    spec["n"] = max(spec["n"], draw(st.sampled_from([4, 5, 7])) if spec["freq"] not in cal.STEP else 1)
    how = ["gap", "duplicate", "swap", "reverse", "empty"]
    f = spec["freq"]
    if f in cal.STEP:
        how += ["partial start", "partial end", "partial start", "partial end", "minutes"]
    else:
        how += ["time", "minutes"]
        if f != "D":
            how += ["day", "day"]
    how += ["freq", "freq"]
    return {"i": spec, "how": draw(st.sampled_from(how)), "k": draw(st.integers(1, 22)), "pos": draw(st.integers(1, 1000)), "dim": draw(st.sampled_from("wqpr")),
            "badfreq": draw(st.sampled_from(["30min", "2h", "2D", "7D", "W", "ME", "B", "2MS", "QE", "YE", "5min", "6h"])), "nested": draw(st.booleans()),
            "bound": draw(st.sampled_from(["left", "right"]))}


def spoil(case):
    """An index that is not a valid description, or None."""
    spec = case["i"]
    i = gen.build_index(spec)
    n = len(i)
    how, k = case["how"], case["k"]
    p = 1 + case["pos"] % (n - 2)
    if how == "gap":
        return pd.DatetimeIndex([ts for j, ts in enumerate(i) if j != p])
    if how == "duplicate":
        return pd.DatetimeIndex([ts for j, ts in enumerate(i) for _ in range(2 if j == p else 1)])
    if how == "swap":
        x = list(i)
        x[p], x[p - 1] = x[p - 1], x[p]
        return pd.DatetimeIndex(x)
    if how == "reverse":
        return i[::-1]
    if how == "empty":
        return i[:0]
    if how.startswith("partial"):
        k = k * 3600 // cal.STEP[spec["freq"]]
        j = i[k:] if how == "partial start" else i[:-k]
        return j if len(j) >= 3 else None
    if how == "minutes":
        return i + pd.Timedelta(minutes=30 if spec["freq"] != "15min" else 15 * (1 + k % 3))
    if how == "time":  # one stamp at another time of the day
        x = list(i)
        x[p] = x[p] + pd.Timedelta(hours=1)
        return pd.DatetimeIndex(x)
    if how == "day":
        return pd.DatetimeIndex([ts + pd.Timedelta(days=1 + k % 27) for ts in i.tz_localize(None)]).tz_localize(spec["tz"])
    if how == "freq":
        start = pd.Timestamp(*spec["start"])
        return pd.date_range(start, periods=24, freq=case["badfreq"], tz=spec["tz"])
    raise AssertionError(how)


def check_bad(case, ctx):
    import portfolyo as pf
    if case["how"] == "minutes" and case["bound"] == "right":
        case["bound"] = "left"  # e.g. 00:15 is a fine right-bound start of quarter-hours
    i = spoil(case)
    if i is None:
        return
    what = f"{case['how']} in {case['i']['freq']} index {i}"
    s = pd.Series(np.arange(len(i)) * 1.0 + 1, i)
    ctx.label(case["how"], case["i"]["freq"], "aware" if case["i"]["tz"] else "agnostic")
    must_raise(lambda: pf.standardize(s), Exception, what)
    if case["bound"] == "right" and case["how"] not in ("day",):
        must_raise(lambda: pf.standardize(s, bound="right"), Exception, "right-bound, " + what)
    d = {case["dim"]: s}
    if case["nested"]:
        good = pd.Series(1.0, gen.build_index(case["i"]))
        d = {"good": {case["dim"]: good}, "bad": d}
    must_raise(lambda: pf.PfLine(d), (Exception,), f"PfLine with {what}")
    ctx.nt()


SUBS = [
    Sub("describe", cases, check_std, 1600,
        rule="standardize() of left- and right-bound data, with and without frequency, in other timezone representations and as wall-clock time; non-trivial if anything has to be changed"),
    Sub("long", lambda: cases(True), check_std, 200, rule="the same, for data that covers several DST changes; non-trivial as above"),
    Sub("line", linecases, check_line, 300, rule="portfolio line from such data; non-trivial if frequency or timezone representation must be found"),
    Sub("refuse", badcases, check_bad, 600, rule="gaps, duplicates, disorder, partial days, wrong starts, other frequencies; each is non-trivial"),
]
