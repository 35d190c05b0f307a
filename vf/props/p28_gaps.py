"""P28: gaps are filled by linear interpolation, and nothing else changes."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen
from ..cmp import close, same_index
from ..core import Sub

NM = {"15min": 1, "h": 2, "D": 40, "MS": 26, "QS": 12, "YS": 8}


@st.composite
def column(draw):
    """Runs of values and gaps."""
    runs = draw(st.lists(st.tuples(st.integers(1, 4), st.sampled_from([0, 1, 1, 2, 2, 3, 4, 7])), min_size=1, max_size=8))
    return {"lead": draw(st.sampled_from([0, 0, 1, 2, 3])), "runs": [list(r) for r in runs], "v": draw(gen.vals())}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 40))
    k = draw(st.sampled_from(["freq", "freq", "range", "numbers", "stamps"]))
    i = {"k": k}
    if k == "freq":
        i["i"] = draw(gen.ispec(freqs=gen.ALLFREQS + ["QS-FEB"], nmax=NM))
    elif k == "range":
        i["a"], i["s"] = draw(st.integers(-5, 5)), draw(st.sampled_from([1, 1, 3]))
    else:
        i["steps"] = draw(st.lists(st.integers(1, 9), min_size=1, max_size=6))
        i["tz"] = draw(st.sampled_from(gen.TZS)) if k == "stamps" else None
    return {"n": n, "i": i, "cols": draw(st.lists(column(), min_size=1, max_size=3)), "df": draw(st.booleans()), "max": draw(st.sampled_from([None, 0, 1, 2, 2, 3, 4, 10, 100])), "name": draw(st.sampled_from([None, "x"]))}


def layout(c, n):
    """Values with the gaps cut out."""
    v = gen.expand(c["v"], n)
    gap = np.zeros(n, bool)
    gap[:c["lead"]] = True
    j, k = c["lead"], 0
    while j < n and k < 100:
        full, empty = c["runs"][k % len(c["runs"])]
        gap[j + full:j + full + empty] = True
        j += full + empty
        k += 1
    v[gap] = np.nan
    return v


def filled(v, x, maxgap):
    out, j, some = v.copy(), 0, []
    n = len(v)
    while j < n:
        if not np.isnan(v[j]):
            j += 1
            continue
        k = j
        while k < n and np.isnan(v[k]):
            k += 1
        where = "edge" if j == 0 or k == n else "long" if k - j > maxgap else "filled"
        some.append(where)
        if where == "filled":
            for m in range(j, k):
                f = (x[m] - x[j - 1]) / (x[k] - x[j - 1])
                out[m] = v[j - 1] * (1 - f) + v[k] * f
        j = k
    return out, some


def check(case, ctx):
    from portfolyo import tools
    s, n = case["i"], case["n"]
    if s["k"] == "freq":
        i = gen.build_index(s["i"])
        x = np.array(cal.bounds(s["i"])[:-1], float)
    elif s["k"] == "range":
        i = pd.RangeIndex(s["a"], s["a"] + n * s["s"], s["s"])
        x = np.arange(n) * s["s"] + s["a"]
    else:
        x = np.cumsum([s["steps"][j % len(s["steps"])] for j in range(n)]).astype(float)
        if s["k"] == "numbers":
            i = pd.Index(x / 4)
        else:
            x = x * 3600 + 1711756800  # across a DST change in Europe
            i = pd.to_datetime(x, unit="s", utc=True)
            i = i.tz_convert(s["tz"]) if s["tz"] else i.tz_localize(None)
    n = len(i)
    data = {f"c{j}": layout(c, n) for j, c in enumerate(case["cols"])}
    maxgap = 2 if case["max"] is None else case["max"]
    args = () if case["max"] is None else (maxgap,)
    arg = pd.DataFrame(data, i) if case["df"] else pd.Series(data["c0"], i, name=case["name"])
    before = arg.copy(deep=True)
    out = tools.frame.fill_gaps(arg, *args)
    assert arg.equals(before), "input was changed"
    assert type(out) is type(arg)
    assert out.index.equals(i) and getattr(out.index, "freq", None) == getattr(i, "freq", None), "index was changed"
    if case["df"]:
        assert list(out.columns) == list(data), f"columns {list(out.columns)}"
    else:
        assert out.name == case["name"]
    kinds = set()
    for c, v in data.items():
        exp, some = filled(v, x, maxgap)
        close(np.asarray(out[c] if case["df"] else out, float), exp, f"{c} with gaps {list(v)[:12]}..")
        kinds.update(some)
        if not case["df"]:
            break
    ctx.label(s["k"], "frame" if case["df"] else "series", f"maxgap {case['max']}", *kinds)
    ctx.nt(bool(kinds))


SUBS = [Sub("fill", cases, check, 2500, 40000, rule="series and frames with gaps of any length at any place (incl. both edges, all missing) over regular, irregular, numeric and timezone-aware indices, "
            "against an own interpolation. Non-trivial: at least one gap.")]
