"""P22: timezone conversion, against a per-period mapping on wall-clock (or universal) time."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise

TZ = ["Europe/Berlin", "Europe/Berlin", "Asia/Kolkata", "Europe/London", "America/New_York", "UTC", "Australia/Sydney"]
ALL = ["15min", "h", "h", "h", "D", "D", "MS", "QS", "YS", "QS-FEB", "YS-APR"]
SODS = [[0, 0], [0, 0], [6, 0], [5, 0], [22, 0]]


@st.composite
def data(draw, spec):
    return {"i": spec, "v": draw(gen.vals("any", maxpool=9)), "as": draw(st.sampled_from(["series", "named", "unit", "df", "udf"])),
            "nofreq": draw(st.integers(0, 3)) == 0}


@st.composite
def span(draw, tz, tzdates=None):
    """Spans that often contain a DST change of the timezone in question."""
    f = draw(st.sampled_from(ALL))
    d = draw(gen.dates(tzdates or tz))
    if f in cal.STEP and draw(st.integers(0, 2)):
        x = draw(st.sampled_from(gen.dst_days(tzdates or tz, draw(st.integers(2019, 2026))))) - cal.dt.timedelta(days=draw(st.integers(0, 2)))
        d = [x.year, x.month, x.day]
    spec = draw(gen.ispec((f,), tzs=(tz,), sods=SODS, start=d, nmax={"15min": 5, "h": 8, "D": 40, "MS": 14, "QS": 6, "YS": 4}))
    return spec


@st.composite
def longspan(draw, tz, tzdates=None):
    """Spans of most of a year or more, so that they contain several DST changes."""
    f, lo, hi = draw(st.sampled_from([("15min", 100, 220), ("h", 200, 400), ("h", 200, 400), ("D", 400, 1200), ("D", 400, 1200)]))
    start = [draw(st.integers(2019, 2026)), draw(st.integers(1, 12)), draw(st.integers(1, 28))]
    return draw(gen.ispec((f,), tzs=(tz,), sods=SODS, start=start, nmin=lo, nmax={cal.kind(f): hi}))


def frame(case):
    i = gen.build_index(case["i"])
    x = gen.expand(case["v"], len(i)) + np.arange(len(i)) * 1024.0  # all values distinct
    s = pd.Series(x, i)
    how = case["as"]
    if how == "named":
        s = s.rename("thename")
    elif how == "unit":
        s = s.astype("pint[MW]").rename("u")
    elif how == "df":
        s = pd.DataFrame({"a": s, "b": -s})
    elif how == "udf":
        s = pd.DataFrame({"a": s, "b": (-s).astype("pint[Eur/MWh]")})
    if case["nofreq"] and len(i) >= 3 and not case["i"]["freq"].startswith("QS-"):
        s.index = pd.DatetimeIndex(list(s.index))
        if case["i"]["freq"] == "YS":
            pass
    return s, x


def values(out, case, x, pos, what):
    """Check that `out` has the values x[pos], and the same type, names and units as the input."""
    exp = x[pos]
    how = case["as"]
    if how in ("series", "named", "unit"):
        assert isinstance(out, pd.Series), f"{what}: series became {type(out).__name__}"
        assert out.name == {"series": None, "named": "thename", "unit": "u"}[how], f"{what}: name became {out.name!r}"
        if how == "unit":
            close(mag(out, "w"), exp, what)
        else:
            assert out.dtype == float, f"{what}: type of values became {out.dtype}"
            close(out, exp, what)
        return
    assert isinstance(out, pd.DataFrame) and list(out.columns) == ["a", "b"], f"{what}: frame became {type(out).__name__}"
    assert out["a"].dtype == float, f"{what}: type of column became {out['a'].dtype}"
    close(out["a"], exp, f"{what}, column a")
    close(mag(out["b"], "p" if how == "udf" else None), -exp, f"{what}, column b")


def naive_spec(spec):
    return {**spec, "tz": None}


def to_agnostic(spec):
    """(left-bounds, positions in source) of the agnostic data for the aware data."""
    L = cal.bounds(spec)[:-1]
    if spec["freq"] not in cal.STEP:
        return cal.bounds(naive_spec(spec))[:-1], np.arange(len(L))
    first = {}
    for j, e in enumerate(L):
        first.setdefault(cal.epoch(cal.wall(e, spec["tz"]), None), j)
    target = cal.bounds(naive_spec(spec))[:-1]
    return target, np.array([first[t] if t in first else first[t - 3600] for t in target])


def to_aware(spec, tz):
    T = cal.bounds({**spec, "tz": tz})[:-1]
    if spec["freq"] not in cal.STEP:
        return T, np.arange(len(T))
    where = {e: j for j, e in enumerate(cal.bounds(spec)[:-1])}
    return T, np.array([where[cal.epoch(cal.wall(e, tz), None)] for e in T])


def label(ctx, case, n, pos, extra):
    pos = np.array(pos)
    dup = len(set(pos.tolist())) < len(pos)
    lost = len(set(pos.tolist())) < n
    ctx.label(case["i"]["freq"], case["as"], extra, "hour repeated" if dup else "", "hour dropped" if lost else "")
    return dup or lost


@st.composite
def c_agn(draw):
    tz = draw(st.sampled_from(TZ))
    return draw(data(draw(span(tz))))


def check_agnostic(case, ctx):
    import portfolyo as pf
    s, x = frame(case)
    before = s.copy()
    spec = case["i"]
    T, pos = to_agnostic(spec)
    out = pf.force_agnostic(s)
    same_index(out.index, T, spec["freq"], None, "agnostic")
    values(out, case, x, pos, "agnostic")
    changed = label(ctx, case, len(x), pos, spec["tz"])
    again = pf.force_agnostic(out)
    same_index(again.index, T, spec["freq"], None, "agnostic twice")
    values(again, case, x, pos, "agnostic twice")
    # and back: periods that exist on both sides keep their value
    back = pf.force_aware(out, spec["tz"])
    T2, pos2 = to_aware(naive_spec(spec), spec["tz"])
    same_index(back.index, cal.bounds(spec)[:-1], spec["freq"], spec["tz"], "back to aware")
    values(back, case, x, pos[pos2], "back to aware")
    assert s.equals(before) or hasattr(s, "dtypes"), "input changed"
    ctx.nt(changed or spec["freq"] not in cal.STEP and cal.has_dst_change(spec))


@st.composite
def c_aw(draw):
    tz = draw(st.sampled_from(TZ))
    return {**draw(data(draw(span(None, draw(st.sampled_from([tz, "Europe/Berlin", "Europe/London"])) if tz in ("UTC", "Asia/Kolkata") else tz)))), "tz": tz}


def check_aware(case, ctx):
    import portfolyo as pf
    s, x = frame(case)
    spec, tz = case["i"], case["tz"]
    T, pos = to_aware(spec, tz)
    out = pf.force_aware(s, tz)
    same_index(out.index, T, spec["freq"], tz, "aware")
    values(out, case, x, pos, "aware")
    changed = label(ctx, case, len(x), pos, tz)
    assert s.index.tz is None, "input changed"
    ctx.nt(changed or spec["freq"] not in cal.STEP and cal.has_dst_change({**spec, "tz": tz}))


@st.composite
def c_aa(draw):
    tz, tz2 = draw(st.sampled_from(TZ)), draw(st.sampled_from(TZ[::-1]))
    return {**draw(data(draw(span(tz, draw(st.sampled_from([tz, tz2])))))), "tz": tz2, "floating": draw(st.booleans())}


def check_other(case, ctx):
    import portfolyo as pf
    s, x = frame(case)
    spec, tz = case["i"], case["tz"]
    L = cal.bounds(spec)[:-1]
    fl = case["floating"]
    if tz == spec["tz"]:
        out = pf.force_aware(s, tz, floating=fl)
        same_index(out.index, L, spec["freq"], tz, "same timezone")
        values(out, case, x, np.arange(len(x)), "same timezone")
        ctx.label("same")
        return
    if not fl:
        try:
            out = pf.force_aware(s, tz, floating=False)
        except Exception as e:  # (pandas refuses with AmbiguousTimeError if a boundary falls in the repeated hour)
            if not isinstance(e, ValueError) and type(e).__name__ not in ("AmbiguousTimeError", "NonExistentTimeError"):
                raise
            assert spec["freq"] not in cal.STEP, "conversion of (quarter)hourly data along universal time refused"
            ctx.label("refused")
            return
        same_index(out.index, L, spec["freq"], tz, "universal time")
        values(out, case, x, np.arange(len(x)), "universal time")
        ctx.label("universal", spec["freq"])
        ctx.nt(spec["freq"] in cal.STEP)
        return
    T, pos = to_agnostic(spec)
    T2, pos2 = to_aware(naive_spec(spec), tz)
    out = pf.force_aware(s, tz, floating=True)
    same_index(out.index, T2, spec["freq"], tz, "floating")
    values(out, case, x, pos[pos2], "floating")
    ctx.label("floating")
    label(ctx, case, len(x), pos[pos2], f"{spec['tz']} to {tz}")
    ctx.nt()


@st.composite
def c_none(draw):
    return draw(data(draw(span(draw(st.sampled_from([None, None, "Europe/Berlin"]))))))


def check_bad(case, ctx):
    """Data without (inferrable) frequency, or conversion without target timezone, is refused."""
    import portfolyo as pf
    s, x = frame(case)
    must_raise(lambda: pf.force_aware(s, None), (ValueError,), "force_aware without timezone")
    if len(s) > 5:
        gap = s.iloc[[j for j in range(len(s)) if j not in (2, 3)]]
        must_raise(lambda: pf.force_aware(gap, "Europe/London"), (ValueError,), "force_aware of data with gap")
        must_raise(lambda: pf.force_agnostic(gap), (ValueError,), "force_agnostic of data with gap")
        ctx.nt()
    ctx.label(case["i"]["freq"])


@st.composite
def c_long(draw):
    kind = draw(st.sampled_from(["agnostic", "aware", "other"]))
    tz, tz2 = draw(st.sampled_from(TZ)), draw(st.sampled_from(TZ[::-1]))
    c = draw(data(draw(longspan(None if kind == "aware" else tz))))
    return {**c, "kind": kind, "tz": tz2, "floating": draw(st.integers(0, 3)) > 0}


def check_long(case, ctx):
    {"agnostic": check_agnostic, "aware": check_aware, "other": check_other}[case["kind"]](case, ctx)
    ctx.label(case["kind"])


SUBS = [
    Sub("agnostic", c_agn, check_agnostic, 900, rule="aware data to agnostic (twice) and back; non-trivial if an hour is repeated or dropped, or days have distinct length"),
    Sub("aware", c_aw, check_aware, 900, rule="agnostic data to aware; non-trivial if an hour is repeated or dropped, or days have distinct length"),
    Sub("other", c_aa, check_other, 900, rule="aware data to another timezone, floating or along the universal time axis; non-trivial if converted"),
    Sub("long", c_long, check_long, 200, rule="each of the above, on data that covers several DST changes; non-trivial as above"),
    Sub("refuse", c_none, check_bad, 100, rule="data with gaps and missing target timezone; non-trivial if long enough for a gap"),
]
