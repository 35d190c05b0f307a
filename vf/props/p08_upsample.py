from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub

SHORTER = {"h": ["15min"], "D": ["15min", "h", "h"], "MS": ["15min", "h", "h", "D", "D"], "QS": ["h", "D", "MS", "MS"], "QS-FEB": ["h", "D", "MS"],
           "QS-DEC": ["D", "MS"], "YS": ["h", "D", "MS", "QS", "QS"], "YS-APR": ["D", "MS", "QS", "QS-JUL"], "YS-FEB": ["D", "MS", "QS-MAY", "QS-FEB"],
           "YS-DEC": ["D", "MS", "QS-MAR"]}
NMAX = {("h", "15min"): 4, ("D", "15min"): 4, ("D", "h"): 8, ("MS", "15min"): 1, ("MS", "h"): 2, ("MS", "D"): 10, ("QS", "h"): 1, ("QS", "D"): 5, ("QS", "MS"): 13,
        ("YS", "h"): 1, ("YS", "D"): 3, ("YS", "MS"): 6, ("YS", "QS"): 6}
KEEP = {"QS-JUL": "QS", "QS-MAY": "QS-FEB"}


@st.composite
def spans(draw):
    f = draw(st.sampled_from(["h", "D", "D", "D", "MS", "MS", "MS", "QS", "QS", "QS-FEB", "QS-DEC", "YS", "YS", "YS-APR", "YS-FEB", "YS-DEC"]))
    t = draw(st.sampled_from(SHORTER[f]))
    nm = {k: NMAX.get((k, cal.kind(t)), 1) for k in ("15min", "h", "D", "MS", "QS", "YS")}
    return draw(gen.ispec(freqs=[f], nmax=nm)), t


@st.composite
def frames(draw):
    spec, t = draw(spans())
    return {"i": spec, "t": t, "v": draw(gen.vals("any", maxpool=9)), "v2": draw(gen.vals("any")),
            "as": draw(st.sampled_from(["series", "series", "int", "unit", "df", "udf"])), "name": draw(st.sampled_from([None, "x", "w"])),
            "int": draw(st.sampled_from(["int64", "int32", "int16"]))}


def check_frames(case, ctx):
    import pandas as pd
    import portfolyo as pf
    spec, t, a = case["i"], case["t"], case["as"]
    i = gen.build_index(spec)
    v, v2 = gen.expand(case["v"], len(i)), gen.expand(case["v2"], len(i))
    if a == "int":
        v = np.round(v).clip(-32000, 32000)
    b = cal.bounds(spec)

    def ref(vals, summable):
        return model.upsample(model.M("R" if summable else "P", spec["freq"], spec["tz"], spec["sod"], b[:-1], b[1:], cols={"r" if summable else "p": vals}), t)
    for summable, fn, unit in ((True, pf.asfreq_sum, "MWh"), (False, pf.asfreq_avg, "MW")):
        e, e2 = ref(v, summable), ref(v2, summable)
        s = pd.Series(v, i, name=case["name"])
        if a == "int":
            s = s.astype(case["int"])
        elif a == "unit":
            s = s.astype(f"pint[{unit}]")
        elif a in ("df", "udf"):
            s = pd.DataFrame({"a": s, "b": pd.Series(v2, i)})
            if a == "udf":
                s = s.astype(f"pint[{unit}]")
        out = fn(s, t)
        what = f"{'sum' if summable else 'avg'} {spec['freq']}>{t}"
        same_index(out.index, e.L, t, spec["tz"], what)
        k = "r" if summable else "p"
        if a in ("df", "udf"):
            assert list(out.columns) == ["a", "b"], f"{what}: columns {list(out.columns)}"
            cols = [(out["a"], e, v), (out["b"], e2, v2)]
        else:
            assert out.name == case["name"], f"{what}: name {out.name}"
            cols = [(out, e, v)]
        back = fn(out, spec["freq"])
        same_index(back.index, b[:-1], spec["freq"], spec["tz"], f"{what} and back")
        if a not in ("df", "udf"):
            back = {"x": back}
        for o, m, orig, bk in zip([c[0] for c in cols], [c[1] for c in cols], [c[2] for c in cols], [back[c] for c in back]):
            if a in ("unit", "udf"):
                assert hasattr(o, "pint"), f"{what}: unit lost"
                o, bk = o.pint.to(unit), bk.pint.to(unit)
            else:
                assert o.dtype == float, f"{what}: dtype {o.dtype}"
            scale = float(np.abs(orig).max())
            close(mag(o), m.cols[k], what, atol=1e-10 * scale)
            close(mag(bk), orig, f"{what} and back", atol=1e-9 * scale)
    ii = pf.tools.changefreq.index(i, t)
    same_index(ii, e.L, t, spec["tz"], "changefreq.index")
    ctx.nt(len(e.L) > len(i))
    ctx.label(f"{spec['freq']}>{t}", "sod" if spec["sod"] != [0, 0] else "midnight", "dst" if spec["tz"] and cal.has_dst_change(spec) else "nodst", a)


@st.composite
def longframes(draw):
    f, t, lo, hi = draw(st.sampled_from([("h", "15min", 60, 200), ("D", "h", 150, 420), ("D", "15min", 60, 200), ("MS", "h", 5, 14), ("MS", "15min", 3, 8), ("MS", "D", 24, 100),
                                         ("QS", "h", 2, 6), ("QS", "D", 8, 30), ("QS-FEB", "MS", 20, 60), ("YS", "h", 2, 2), ("YS", "D", 3, 8), ("YS-APR", "MS", 5, 9)]))
    return {**draw(frames()), "i": draw(gen.ispec(freqs=[f], nmin=lo, nmax={cal.kind(f): hi})), "t": t}


@st.composite
def lines(draw):
    spec, t = draw(spans())
    return {"d": draw(model.line(spec, depth=2, kind=draw(st.sampled_from("VPRCCC")))), "t": t}


def check_lines(case, ctx):
    d, t = case["d"], case["t"]
    m = model.model(d)
    pfl = model.build(d)
    e = model.upsample(m, t)
    out = pfl.asfreq(t)
    model.check(out, e, f"asfreq {m.freq}>{t}")
    model.check(out.asfreq(m.freq), model.undetermined(m), f"asfreq {m.freq}>{t}>{m.freq}")
    if m.kind == "C":
        model.check(pfl.volume.asfreq(t), e.part("V"), "volume")
        model.check(pfl.revenue.asfreq(t), e.part("R"), "revenue")
        model.check(pfl.flatten().asfreq(t), e.flat(), "flatten")
    ctx.nt(len(e.L) > len(m.L))
    ctx.label(m.kind, "nested" if m.nested else "flat", f"{m.freq}>{cal.kind(t)}")


@st.composite
def missing(draw):
    f = draw(st.sampled_from(["h", "D", "MS", "QS"]))
    t = draw(st.sampled_from([x for x in SHORTER[f] if cal.order(x) <= 2]))
    nm = {k: max(2, NMAX.get((k, cal.kind(t)), 1)) for k in ("15min", "h", "D", "MS", "QS", "YS")}
    spec = draw(gen.ispec(freqs=[f], nmax=nm, nmin=2))
    return {"i": spec, "t": t, "v": draw(gen.vals("nz")), "na": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)), "unit": draw(st.booleans())}


def check_missing(case, ctx):
    """A missing value is missing in all sub-periods, and only there."""
    import pandas as pd
    import portfolyo as pf
    spec, t = case["i"], case["t"]
    i = gen.build_index(spec)
    v = gen.expand(case["v"], len(i))
    na = sorted({x % len(i) for x in case["na"]})
    v[na] = np.nan
    b = cal.bounds(spec)
    s = pd.Series(v, i)
    for k, fn, unit in (("p", pf.asfreq_avg, "MW"), ("r", pf.asfreq_sum, "MWh")):
        m = model.M(k.upper(), spec["freq"], spec["tz"], spec["sod"], b[:-1], b[1:], cols={k: v})
        e = model.upsample(m, t)
        out = fn(s.astype(f"pint[{unit}]") if case["unit"] else s, t)
        if case["unit"]:
            out = out.pint.to(unit)
        close(mag(out), e.cols[k], f"missing {k} {spec['freq']}>{t}")
    ctx.nt(0 < len(na) < len(i))
    ctx.label(f"{spec['freq']}>{t}", "first" if 0 in na else "later", "unit" if case["unit"] else "float")


SUBS = [
    Sub("frame", frames, check_frames, 360, 7000, rule="asfreq_sum/asfreq_avg of series and frames (float, int, units) to every shorter frequency incl. anchored quarters and years, "
        "against the reference calendar, and back. Non-trivial: at least one period is split."),
    Sub("long", longframes, check_frames, 60, 900, rule="the first check, on spans of many months. Non-trivial: at least one period is split."),
    Sub("line", lines, check_lines, 220, 4500, rule="asfreq of flat and nested lines of every kind, and back. Non-trivial: at least one period is split."),
    Sub("missing", missing, check_missing, 100, 1600, rule="series with missing values to daily or shorter. Non-trivial: some but not all values missing."),
]
