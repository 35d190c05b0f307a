from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise

LONGER = {"15min": ["h", "D", "D", "MS"], "h": ["D", "D", "MS", "MS", "QS"], "D": ["MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"],
          "MS": ["QS", "YS", "QS-FEB", "YS-APR", "YS-OCT"], "QS": ["YS", "YS-APR"], "QS-APR": ["YS", "YS-JUL"], "QS-FEB": ["YS-FEB", "YS-MAY"],
          "YS": ["YS"]}
DAYS = {"h": 1, "D": 1, "MS": 31, "QS": 92, "YS": 366}


@st.composite
def spans(draw, f=None, t=None):
    """Source span and target frequency; most spans contain at least one full target period, edges often incomplete."""
    f = f or draw(st.sampled_from(["15min", "h", "h", "h", "D", "D", "D", "D", "MS", "MS", "QS", "QS-APR", "QS-FEB"]))
    t = t or draw(st.sampled_from(LONGER[f]))
    if f == "15min" and t == "MS" and draw(st.booleans()):
        t = "D"
    tz = draw(st.sampled_from(gen.TZS))
    d = cal.floor_date(cal.dt.date(*draw(gen.dates(tz))), t if draw(st.integers(0, 2)) else f)
    k = cal.kind(t)
    if f in ("15min", "h", "D"):
        lo, hi = DAYS[k], {"h": 3, "D": 6, "MS": 65, "QS": 190, "YS": 800}[k]
        if f == "15min":
            hi = min(hi, 40)
        if d.day > 1 and k in ("MS", "QS", "YS"):
            hi += 31 if f != "15min" else 0
    else:
        lo, hi = {"QS": 3, "YS": 12}[k], 40
        if cal.kind(f) == "QS":
            lo, hi = 4, 13
    lo = draw(st.sampled_from([lo, lo, lo, 1]))
    spec = {"freq": f, "tz": tz, "sod": list(draw(st.sampled_from(gen.SODS))), "start": list(d.timetuple()[:3]), "n": draw(st.integers(lo, hi))}
    if k in ("MS", "QS", "YS") and draw(st.integers(0, 3)) == 0 and f in ("h", "D", "MS", "QS"):
        # exactly one or two target periods
        s = cal.floor_date(d, t)
        e = cal.next_start(s, t, draw(st.integers(1, 2)) if f != "h" else 1)
        spec["start"] = list(s.timetuple()[:3])
        if f in ("h", "D"):
            spec["n"] = (e - s).days
        else:
            spec["n"] = sum(1 for j in range(100) if cal.next_start(s, f, j) < e)
    return spec, t


@st.composite
def frames(draw):
    spec, t = draw(spans())
    return {"i": spec, "t": t, "v": draw(gen.vals("any", maxpool=9)), "v2": draw(gen.vals("any")),
            "as": draw(st.sampled_from(["series", "series", "int", "unit", "df", "udf"])), "name": draw(st.sampled_from([None, "x", "w"])),
            "int": draw(st.sampled_from(["int64", "int32", "int16"]))}


def ref(spec, t, v, summable):
    m = model.M("R" if summable else "P", spec["freq"], spec["tz"], spec["sod"], cal.bounds(spec)[:-1], cal.bounds(spec)[1:],
                cols={"r" if summable else "p": v})
    return m, model.downsample(m, t)


def check_frames(case, ctx):
    import pandas as pd
    import portfolyo as pf
    spec, t = case["i"], case["t"]
    i = gen.build_index(spec)
    v, v2 = gen.expand(case["v"], len(i)), gen.expand(case["v2"], len(i))
    a = case["as"]
    if a == "int":
        v = np.round(v).clip(-32000, 32000)
    for summable, fn, unit in ((True, pf.asfreq_sum, "MWh"), (False, pf.asfreq_avg, "MW")):
        m, d = ref(spec, t, v, summable)
        _, d2 = ref(spec, t, v2, summable)
        s = pd.Series(v, i, name=case["name"])
        if a == "int":
            s = s.astype(case["int"])
        elif a == "unit":
            s = s.astype(f"pint[{unit}]")
        elif a in ("df", "udf"):
            s = pd.DataFrame({"a": s, ("b"): pd.Series(v2, i)})
            if a == "udf":
                s = s.astype(f"pint[{unit}]")
        out = fn(s, t)
        what = f"{'sum' if summable else 'avg'} {spec['freq']}>{t}"
        if d is None:
            assert len(out) == 0, f"{what}: no full period but {len(out)} rows"
            ctx.label("nofull")
            continue
        same_index(out.index, d.L, t, spec["tz"], what)
        k = "r" if summable else "p"
        scale = float(np.abs(v).max() + np.abs(v2).max()) * (len(i) if summable else 1)
        cols = [(out, d)] if a not in ("df", "udf") else [(out["a"], d), (out["b"], d2)]
        if a in ("df", "udf"):
            assert list(out.columns) == ["a", "b"]
        else:
            assert out.name == case["name"], f"{what}: name {out.name}"
        for o, e in cols:
            if a in ("unit", "udf"):
                assert hasattr(o, "pint"), f"{what}: unit lost"
                got = np.asarray(o.pint.to(unit).pint.m, float)
            else:
                assert o.dtype == float, f"{what}: dtype {o.dtype}"
                got = mag(o)
            close(got, e.cols[k], what, atol=1e-10 * scale)
    ii = pf.tools.changefreq.index(i, t)
    if d is not None:
        same_index(ii, d.L, t, spec["tz"], "changefreq.index")
        ctx.nt(len(d.L) < len(i) and len(set(v)) > 1)
        ctx.label(f"{spec['freq']}>{cal.kind(t)}", "sod" if spec["sod"] != [0, 0] else "midnight", "trim" if model.targets(m, t)[0][2][0] > 0 else "exact",
                  "dst" if spec["tz"] and cal.has_dst_change(spec) else "nodst")
    else:
        assert len(ii) == 0


@st.composite
def lines(draw):
    spec, t = draw(spans())
    big = spec["freq"] in ("15min", "h") and spec["n"] > 10
    return {"d": draw(model.line(spec, depth=1 if big else 2, kind=draw(st.sampled_from("VPRCCC")))), "t": t}


def check_lines(case, ctx):
    d, t = case["d"], case["t"]
    m = model.model(d)
    pfl = model.build(d)
    e = model.downsample(m, t)
    if e is None:
        must_raise(lambda: pfl.asfreq(t), (ValueError,), f"asfreq({t}) without full period")
        ctx.label("nofull")
        return
    out = pfl.asfreq(t)
    model.check(out, e, f"asfreq {m.freq}>{t}")
    # resampling and extracting commute
    if m.kind == "C":
        model.check(pfl.volume.asfreq(t), e.part("V"), "volume")
        model.check(pfl.revenue.asfreq(t), e.part("R"), "revenue")
        model.check(pfl.flatten().asfreq(t), e.flat(), "flatten")
    ctx.nt(len(e.L) < len(m.L))
    ctx.label(m.kind, "nested" if m.nested else "flat", f"{m.freq}>{cal.kind(t)}")


VIAS = [("h", "D", "MS"), ("h", "D", "QS"), ("D", "MS", "QS"), ("D", "MS", "YS"), ("D", "MS", "YS-APR"), ("D", "QS", "YS"), ("D", "QS-FEB", "YS-FEB"), ("D", "MS", "QS-FEB"),
        ("MS", "QS", "YS"), ("MS", "QS-FEB", "YS-MAY"), ("MS", "QS", "YS-OCT"), ("15min", "h", "D")]


@st.composite
def steps(draw):
    f, via, t = draw(st.sampled_from(VIAS))
    spec, t = draw(spans(f, t))
    return {"d": draw(model.line(spec, depth=0, kind=draw(st.sampled_from("VRPC")))), "t": t, "via": via}


def check_steps(case, ctx):
    """Downsampling in two steps gives the one-step result wherever both have the period."""
    d, t, via = case["d"], case["t"], case["via"]
    m = model.model(d)
    e = model.downsample(m, t)
    if e is None:
        return
    pfl = model.build(d)
    a, b = pfl.asfreq(t), pfl.asfreq(via).asfreq(t)
    model.check(b, e, f"{m.freq}>{via}>{t}")
    model.check(a, e, f"{m.freq}>{t}")
    ctx.nt(True)
    ctx.label(f"{m.freq}>{via}>{t}")


SUBS = [
    Sub("frame", frames, check_frames, 480, 9000, rule="asfreq_sum/asfreq_avg of series and frames (float, int, units), 15min..quarterly to hourly..yearly incl. anchored quarters "
        "and years, incomplete edges, DST, start-of-day, against the reference calendar. Non-trivial: aggregates several periods with varying values."),
    Sub("line", lines, check_lines, 260, 5000, rule="asfreq of flat and nested lines of every kind. Non-trivial: aggregates several periods."),
    Sub("steps", steps, check_steps, 120, 2000, rule="downsampling in two steps (12 chains of frequencies) equals one step. Non-trivial: at least one full target period."),
]
