"""P15: weighted averages, against the documented rules evaluated on plain lists."""
from hypothesis import strategies as st
import math
import numpy as np
import pandas as pd
from ..cmp import close
from ..core import Sub, must_raise

UNITS = {"Eur/MWh": 1.0, "MW": 1.0, "MWh": 1.0, "Eur": 1.0}


def total(w):
    """Sum of weights. They are whole multiples of some step, so anything below a fraction of it is a rounding error."""
    t = math.fsum(w)
    return 0 if abs(t) < 1e-9 * sum(map(abs, w)) else t


def ref(v, w, allzero_uniform):
    """Documented result; None = not defined (NaN)."""
    if all(x == 0 for x in w):
        if not allzero_uniform or any(math.isnan(x) for x in v):
            return None
        return v[0] if len(set(v)) == 1 else None
    rel = [(x, y) for x, y in zip(v, w) if y != 0]
    if any(math.isnan(x) for x, _ in rel):
        return None
    if total(w) == 0:
        return rel[0][0] if len({x for x, _ in rel}) == 1 else None
    return math.fsum(x * y for x, y in rel) / math.fsum(w)


num = st.integers(-400, 400).map(lambda x: x / 8)


@st.composite
def values(draw, n, nan=True):
    how = draw(st.integers(0, 4))
    if how == 0:  # uniform
        v = [draw(num)] * n
    elif how == 1:  # few distinct
        v = [draw(st.sampled_from([0.0, 10.0, -2.5])) for _ in range(n)]
    else:
        v = [draw(num) for _ in range(n)]
    if nan and draw(st.integers(0, 2)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            v[draw(st.integers(0, n - 1))] = None
    return v


@st.composite
def weights(draw, n):
    how = draw(st.integers(0, 7))
    if how == 0:
        return [0.0] * n
    if how == 1:
        return [draw(num.filter(bool))] * n
    w = [draw(st.one_of(num, st.sampled_from([0.0, 1.0, -1.0]), st.integers(1, 50).map(float))) for _ in range(n)]
    if how in (2, 3) and n > 1:  # sum is zero
        z = draw(st.integers(0, n - 1))
        w[z] = -(sum(w) - w[z])
    if how == 4:
        for _ in range(draw(st.integers(1, n))):
            w[draw(st.integers(0, n - 1))] = 0.0
    step = draw(st.sampled_from([None, None, None, None, 0.8, 8e-9, 8e-12, 8e9]))  # decimals (inexact sums), other magnitudes
    return [x * 8 * (step / 8) for x in w] if step else w


def f(v):
    return [math.nan if x is None else x for x in v]


def idx(kind, n):
    return {"int": pd.RangeIndex(n), "str": pd.Index([f"x{9 - j}" for j in range(n)]), "time": pd.date_range("2020", freq="D", periods=n),
            "gap": pd.Index([3 * j - 2 for j in range(n)])}[kind]


def make_weights(w, i, how, unit, perm):
    import portfolyo as pf
    order = sorted(range(len(w)), key=lambda j: perm[j % len(perm)] * 100 + j)
    q = (lambda x: pf.Q_(x, unit)) if unit else (lambda x: x)
    if how == "list":
        return [q(x) for x in w]
    if how == "array":
        return np.array(w)
    if how == "dict":
        return {i[j]: q(w[j]) for j in order}
    s = pd.Series([w[j] for j in order], pd.Index([i[j] for j in order]))
    if how == "intseries" and all(float(x).is_integer() for x in w):
        s = s.astype(int)
    return s.astype(f"pint[{unit}]") if unit else s


def number(x, unit, what):
    """Float of the (scalar) result, which must carry the unit if defined."""
    import portfolyo as pf
    if isinstance(x, pf.Q_):
        assert unit, f"{what}: got {x}, but values have no unit"
        return float(x.to(unit).magnitude)
    x = float(x)
    assert unit is None or math.isnan(x), f"{what}: unit lost, got {x}"
    return x


def same(got, exp, v, w, what):
    if exp is None:
        assert math.isnan(got), f"{what}: got {got}, expected undefined (NaN)"
    else:
        scale = sum(abs(x * y) for x, y in zip(v, w) if y and not math.isnan(x)) / (abs(total(w)) or 1.0) + abs(exp)
        assert abs(got - exp) <= 1e-9 * scale + 1e-12, f"{what}: got {got}, expected {exp}"


def rule(v, w):
    k = "all weights 0" if not any(w) else "sum 0" if total(w) == 0 else "equal" if len(set(w)) == 1 else "normal"
    return k + (" with NaN" if any(math.isnan(x) for x in v) else "")


@st.composite
def entry(draw, n):
    """(values, weights) of one average; sometimes uniform but for the entries without weight."""
    if n < 3 or draw(st.integers(0, 4)):
        return draw(values(n)), draw(weights(n))
    w = draw(st.permutations([0.0, draw(num.filter(bool))] + [draw(st.sampled_from([0.0, 1.0, -2.5, 3.0])) for _ in range(n - 3)] + [None]))
    k = w.index(None)
    w[k] = 0.0
    how = draw(st.integers(0, 3))
    w[k] = -sum(w) if how else draw(num)
    u = draw(num)
    v = [u if x else draw(st.sampled_from([None, u + 1.0, 0.0])) for x in w]
    if how == 3 and draw(st.booleans()):
        v[w.index(max(w))] = u - 2.0
    return v, w


@st.composite
def scases(draw):
    n = draw(st.integers(1, 6))
    v, w = draw(entry(n))
    return {"v": v, "w": w, "i": draw(st.sampled_from(["int", "str", "time", "gap"])),
            "as": draw(st.sampled_from(["list", "array", "dict", "series", "intseries"])), "uv": draw(st.sampled_from([None, None, *UNITS])),
            "uw": draw(st.sampled_from([None, None, "MWh", "h"])), "perm": draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)),
            "extra": draw(st.sampled_from([0, 0, 0, 1, 2])), "scale": draw(st.sampled_from([2.0, -1.0, 0.5, 8.0, 1e-9, 1e6])), "general": draw(st.booleans())}


def check_series(case, ctx):
    from portfolyo.tools import wavg
    v, w = f(case["v"]), case["w"]
    how = case["as"]
    n = len(w)
    # values without weight are ignored if weights are aligned
    extra = case["extra"] if how not in ("list", "array") else 0
    full = v + [77.0, math.nan][:extra]
    i = idx(case["i"], len(full))
    s = pd.Series(full, i, dtype=float)
    if case["uv"]:
        s = s.astype(f"pint[{case['uv']}]")
    before = s.copy()
    uw = case["uw"] if how != "array" else None
    fn = wavg.general if case["general"] else wavg.series
    exp = ref(v, w, False)
    ctx.label(rule(v, w), how, "unit" if case["uv"] else "float", "extra" if extra else "same keys")
    W = make_weights(w, i[:n], how, uw, case["perm"])
    got = number(fn(s, W), case["uv"], "wavg")
    if any(w) or exp is not None:
        same(got, exp, v, w, f"{rule(v, w)}: average of {v} with weights {w}")
    assert s.equals(before) or (s.isna() == before.isna()).all() and (s[s.notna()] == before[before.notna()]).all(), "input values changed"
    if any(w):
        got2 = number(fn(s, make_weights([x * case["scale"] for x in w], i[:n], how, uw, case["perm"])), case["uv"], "wavg")
        same(got2, exp, v, w, f"weights scaled by {case['scale']}: average of {v} with weights {w}")
        # reorder entries together
        o = sorted(range(len(full)), key=lambda j: case["perm"][j % len(case["perm"])] * 100 - j)
        s3 = s.iloc[o]
        W3 = make_weights([w[j] for j in o], s3.index, how, uw, case["perm"]) if how in ("list", "array") else W
        same(number(fn(s3, W3), case["uv"], "wavg"), exp, v, w, f"reordered: average of {v} with weights {w}")
    if how not in ("list", "array") and n > 1:
        must_raise(lambda: fn(s.iloc[: n - 1], W), (ValueError,), "weights without value")
    ctx.nt(len(set(w)) > 1 or rule(v, w) != "normal")


@st.composite
def fcases(draw):
    axis = draw(st.sampled_from([0, 1, 1]))
    m, k = draw(st.integers(1, 4)), draw(st.integers(1, 4))  # rows = results, entries per result
    ws = draw(st.sampled_from(["list", "array", "dict", "series", "df", "df"]))
    vw = [draw(entry(k)) for _ in range(m)]
    return {"v": [v for v, _ in vw], "w": [w for _, w in vw][:m if ws == "df" else 1], "axis": axis, "as": ws,
            "uv": draw(st.sampled_from([None, None, *UNITS])), "uw": draw(st.sampled_from([None, None, "MWh"])),
            "i": draw(st.sampled_from(["int", "str", "time", "gap"])), "perm": draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)),
            "mix": draw(st.booleans()), "general": draw(st.booleans()), "extra": draw(st.sampled_from([0, 0, 1]))}


MIX = {"Eur/MWh": "ctEur/kWh", "MW": "kW", "MWh": "kWh"}  # 1 ctEur/kWh = 10 Eur/MWh, ...
FACTOR = {"ctEur/kWh": 10.0, "kW": 1e-3, "kWh": 1e-3}


def check_frame(case, ctx):
    """Reference per result; same orientation-independent numbers for both axes, and same as the average of a series."""
    import portfolyo as pf
    from portfolyo.tools import wavg
    axis, how = case["axis"], case["as"]
    V = [f(r) for r in case["v"]]
    m, k = len(V), len(V[0])
    W = case["w"] if how == "df" else case["w"] * m
    entries = idx("str" if axis == 1 else case["i"], k)
    results = idx(case["i"] if axis == 1 else "str", m)
    uv, uw = case["uv"], case["uw"] if how != "array" else None
    mat = pd.DataFrame(V, results, entries, dtype=float)
    if axis == 0:
        mat = mat.T
    unitof = {}
    mix = case["mix"] and uv in MIX and all(total(w) != 0 for w in W)
    cols = {}
    for j, (c, s) in enumerate(mat.items()):
        u = MIX[uv] if mix and j % 2 else uv
        if u and u != uv:
            s = s / FACTOR[u]
        cols[c] = s.astype(f"pint[{u}]") if u else s
    df = pd.DataFrame(cols)
    if how == "df":
        wdf = pd.DataFrame(W, results, entries, dtype=float)
        if axis == 0:
            wdf = wdf.T
        if uw:
            wdf = pd.DataFrame({c: s.astype(f"pint[{uw}]") for c, s in wdf.items()})
        weights_ = wdf
        if len(wdf.columns) > 1 and case["perm"][0] % 2:
            weights_ = wdf[list(wdf.columns)[::-1]]
    else:
        weights_ = make_weights(W[0], entries, how, uw, case["perm"])
    fn = wavg.general if case["general"] else wavg.dataframe
    got = fn(df, weights_, axis=axis)
    ctx.label(f"axis {axis}", how, "mixed units" if mix else "unit" if uv else "float", *{rule(v, w) for v, w in zip(V, W)})
    exp = [ref(v, w, True) for v, w in zip(V, W)]
    assert isinstance(got, pd.Series) and set(got.index) == set(results) and len(got) == m, f"result is {type(got)} with index {getattr(got, 'index', None)}"
    for j, key in enumerate(results):
        x = got[key]
        if exp[j] is None and uv and all(e is None for e in exp):
            x = getattr(x, "magnitude", x)  # no unit needed if nothing is defined
            g = float(x)
        else:
            if isinstance(x, pf.Q_) and math.isnan(x.magnitude):
                g = math.nan
            else:
                g = number(x, uv, "result")
        same(g, exp[j], V[j], W[j], f"{rule(V[j], W[j])}, axis {axis}, weights as {how}: average of {V[j]} with weights {W[j]}")
        # same as average of series
        if any(W[j]):
            s = pd.Series(V[j], entries, dtype=float)
            if uv:
                s = s.astype(f"pint[{uv}]")
            same(number(wavg.series(s, pd.Series(W[j], entries)), uv, "series"), exp[j], V[j], W[j], "average of series")
    ctx.nt(any(e is not None for e in exp) and k > 1)


@st.composite
def ucases(draw):
    n = draw(st.integers(1, 6))
    return {"v": draw(values(n, nan=False)), "u": draw(st.sampled_from([None, "Eur/MWh", "MW"])), "axis": draw(st.sampled_from([0, 1])), "m": draw(st.integers(1, 3))}


def check_unweighted(case, ctx):
    from portfolyo.tools import wavg
    v, u = f(case["v"]), case["u"]
    s = pd.Series(v)
    df = pd.DataFrame({f"c{j}": s + j for j in range(case["m"])})
    if u:
        s, df = s.astype(f"pint[{u}]"), df.astype(f"pint[{u}]")
    mean = math.fsum(v) / len(v)
    same(number(wavg.series(s), u, "mean"), mean, v, [1] * len(v), "unweighted series")
    got = wavg.dataframe(df, axis=case["axis"])
    exp = [mean + j for j in range(case["m"])] if case["axis"] == 0 else [x + (case["m"] - 1) / 2 for x in v]
    assert len(got) == len(exp)
    for g, e in zip(got, exp):
        same(number(g, u, "mean"), e, v, [1] * len(v), f"unweighted frame, axis {case['axis']}")
    ctx.label(u, f"axis {case['axis']}")
    ctx.nt(len(set(v)) > 1)


SUBS = [
    Sub("series", scases, check_series, 3000,
        rule="average of a series with weights as list, array, mapping or series, with or without units, scaled and reordered; non-trivial if weights differ or a special rule applies"),
    Sub("frame", fcases, check_frame, 2400, rule="row-wise and column-wise averages of frames; non-trivial if several entries are averaged to a defined result"),
    Sub("unweighted", ucases, check_unweighted, 150, rule="without weights: the normal average; non-trivial if values differ"),
]
