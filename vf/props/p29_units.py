"""P29: conversion of units, against own conversion factors."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import gen
from ..cmp import close
from ..core import Sub, must_raise

# name -> (dimension, factor to MW / MWh / Eur/MWh / Eur / h / 1), from physics
BASE = {
    "w": {"W": 1e-6, "kW": 1e-3, "MW": 1, "GW": 1e3, "TW": 1e6, "watt": 1e-6, "megawatt": 1, "kilowatt": 1e-3, "MWh/h": 1, "kWh/min": 0.06, "MJ/s": 1, "GJ/h": 1 / 3.6,
          "tce/h": 6.978, "MW*h/hour": 1},
    "q": {"Wh": 1e-6, "kWh": 1e-3, "MWh": 1, "GWh": 1e3, "TWh": 1e6, "watthour": 1e-6, "megawatthour": 1, "J": 1 / 3.6e9, "kJ": 1 / 3.6e6, "MJ": 1 / 3600, "GJ": 1 / 3.6, "TJ": 1e3 / 3.6,
          "joule": 1 / 3.6e9, "toe": 11.63, "tce": 6.978, "MW*h": 1, "kW*min": 1e-3 / 60, "GW*s": 1e3 / 3600, "tonne_oil_equiv": 11.63},
    "p": {"Eur/MWh": 1, "euro_per_MWh": 1, "cent_per_kWh": 10, "ct/kWh": 10, "Eur/kWh": 1e3, "Eur/GJ": 3.6, "kEur/GWh": 1, "eurocent/MJ": 36, "Eur/toe": 1 / 11.63, "Eur/MW/h": 1,
          "cent/Wh": 1e4, "Eur/J": 3.6e9},
    "r": {"Eur": 1, "euro": 1, "kEur": 1e3, "MEur": 1e6, "cent": 0.01, "ct": 0.01, "eurocent": 0.01, "cEur": 0.01, "GEur": 1e9},
    "duration": {"h": 1, "hour": 1, "hr": 1, "min": 1 / 60, "minute": 1 / 60, "s": 1 / 3600, "sec": 1 / 3600, "kh": 1e3},
}
DEFAULT = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "duration": "h"}
# product and ratio of dimensions
RULES = [("w", "*", "duration", "q"), ("duration", "*", "w", "q"), ("q", "/", "duration", "w"), ("q", "/", "w", "duration"), ("p", "*", "q", "r"), ("q", "*", "p", "r"), ("r", "/", "q", "p"), ("r", "/", "p", "q")]
RULES += [(k, "/", k, None) for k in BASE]
UPPER = {"Wh", "kWh", "MWh", "GWh", "Eur", "euro", "W", "kW", "MW", "Eur/MWh", "Eur/kWh"}  # (word prefixes, like 'mega', are in lower case)


def unit(draw, k):
    u = draw(st.sampled_from(sorted(BASE[k])))
    how = draw(st.sampled_from(["", "", "", "upper", "space"]))
    if how == "upper" and u in UPPER:
        return [u.upper(), u]
    if how == "space":
        return [u.replace("/", " / ").replace("*", " * "), u]
    return [u, u]


@st.composite
def quantities(draw):
    k = draw(st.sampled_from(sorted(BASE)))
    rule = draw(st.sampled_from(RULES))
    return {"k": k, "x": draw(st.sampled_from([0.0, 1.0, -2.5, 1e3, 0.125, 40.0, -1e-3])), "int": draw(st.booleans()), "u": [unit(draw, k), unit(draw, k)],
            "rule": list(rule), "ru": [unit(draw, rule[0]), unit(draw, rule[2])], "other": draw(st.sampled_from(sorted(BASE))), "y": draw(st.sampled_from([1.0, 3.0, -0.5, 200.0]))}


def near(a, b, what):
    assert abs(a - b) <= 1e-9 * max(abs(a), abs(b)), f"{what}: {a!r}, expected {b!r}"


def check_quantities(case, ctx):
    import pint
    import portfolyo as pf
    from portfolyo.tools import unit as tu
    k, x = case["k"], case["x"]
    if case["int"]:
        x = int(x)
    (u1, n1), (u2, n2) = case["u"]
    f1, f2 = BASE[k][n1], BASE[k][n2]
    q = pf.Q_(x, u1)
    near(q.to(u2).magnitude, x * f1 / f2, f"{x} {u1} in {u2}")
    d = tu.defaultunit(q)
    near(d.to(DEFAULT[k]).magnitude, x * f1, f"default unit of {x} {u1}")
    d2 = tu.defaultunit(pf.Q_(1.0, u2))
    assert d.units == d2.units, f"default unit of {u1} is {d.units}, and that of {u2} is {d2.units}"
    near(tu.defaultunit(d).magnitude, d.magnitude, "default unit twice")
    m, u = tu.split_magn_unit(q)
    near(pf.Q_(m, u).to(DEFAULT[k]).magnitude, x * f1, f"magnitude and unit of {x} {u1}")
    assert tu.to_name(pf.Unit(u1)) == k, f"name of {u1}: {tu.to_name(pf.Unit(u1))}, expected {k}"
    near(pf.Q_(1.0, tu.from_name(k)).to(DEFAULT[k]).magnitude, 1.0, f"unit of {k}: {tu.from_name(k)}")
    assert pf.Unit(u1) == pf.Unit(n1), f"{u1} and {n1} differ"
    o = case["other"]
    if o != k:
        must_raise(lambda: q.to(DEFAULT[o]), (pint.DimensionalityError,), f"{u1} to {DEFAULT[o]}")
        must_raise(lambda: pf.Q_(1.0, u1) + pf.Q_(1.0, DEFAULT[o]), (pint.DimensionalityError,), f"sum of {u1} and {DEFAULT[o]}")
    near((q + pf.Q_(case["y"], u2)).to(DEFAULT[k]).magnitude, x * f1 + case["y"] * f2, f"{x} {u1} + {case['y']} {u2}") if abs(x * f1 + case["y"] * f2) > 1e-6 * abs(x * f1) else None
    a, op, b, r = case["rule"]
    (ua, na), (ub, nb) = case["ru"]
    va, vb = pf.Q_(float(x), ua), pf.Q_(case["y"], ub)
    res = va * vb if op == "*" else va / vb
    fa, fb = BASE[a][na], BASE[b][nb]
    exp = x * fa * case["y"] * fb if op == "*" else x * fa / (case["y"] * fb)
    if r is None:
        v = tu.defaultunit(res)
        assert isinstance(v, float) or isinstance(v, int), f"{ua}/{ub} is not a plain number: {v!r}"
        near(v, exp, f"{va} / {vb}")
        assert tu.to_name(res.units) == "nodim"
    else:
        near(res.to(DEFAULT[r]).magnitude, exp, f"{va} {op} {vb}")
        assert tu.to_name(res.units) == r, f"dimension of {va} {op} {vb}"
    assert tu.defaultunit(case["y"]) == case["y"] and isinstance(tu.defaultunit(3), float)
    assert tu.split_magn_unit(case["y"]) == (case["y"], None)
    ctx.label(k, "same unit" if n1 == n2 else "other unit", f"{a}{op}{b}")
    ctx.nt(n1 != n2)


FORMS = ["float", "int", "pint", "pint-int", "objects", "objects-mixed", "nodim", "dims"]


@st.composite
def column(draw):
    k = draw(st.sampled_from(sorted(BASE)))
    return {"k": k, "form": draw(st.sampled_from(FORMS)), "u": unit(draw, k), "us": [unit(draw, k) for _ in range(3)], "v": draw(gen.vals()), "name": draw(st.sampled_from([None, "x"]))}


@st.composite
def series(draw):
    return {"i": draw(gen.ispec(nmax={"15min": 1, "h": 1, "D": 20, "MS": 10, "QS": 5, "YS": 4})), "cols": draw(st.lists(column(), min_size=1, max_size=3)), "plainindex": draw(st.booleans())}


def make(c, i):
    """(series, values in default unit or None if not of one dimension)"""
    import portfolyo as pf
    x = gen.expand({**c["v"], "e": 0}, len(i))
    k, form = c["k"], c["form"]
    u, n = c["u"]
    f = BASE[k][n]
    if form in ("int", "pint-int"):
        x = np.round(x)
    if form == "float":
        return pd.Series(x, i, name=c["name"]), x
    if form == "int":
        return pd.Series(x.astype(int), i, name=c["name"]), x
    if form == "pint":
        return pd.Series(x, i, name=c["name"]).astype(f"pint[{u}]"), x * f
    if form == "pint-int":
        return pd.Series(x.astype(int), i, dtype=f"pint[{u}]", name=c["name"]), x * f
    if form == "nodim":
        return pd.Series(x, i, name=c["name"]).astype("pint[dimensionless]"), x
    if form == "objects":
        return pd.Series([pf.Q_(v, u) for v in x], i, name=c["name"]), x * f
    if form == "objects-mixed":
        us = [c["us"][j % 3] for j in range(len(i))]
        return pd.Series([pf.Q_(v, a) for v, (a, _) in zip(x, us)], i, name=c["name"]), x * np.array([BASE[k][b] for _, b in us])
    if len(i) < 2:
        return None, None
    other = DEFAULT["r" if k != "r" else "q"]
    return pd.Series([pf.Q_(v, u if j else other) for j, v in enumerate(x)], i, name=c["name"]), None


def dimensioned(form):
    return form in ("pint", "pint-int", "objects", "objects-mixed")


def same_values(s, c, x, what):
    """Values in the default unit."""
    if dimensioned(c["form"]):
        assert hasattr(s, "pint"), f"{what}: no unit"
        close(np.asarray(s.pint.to(DEFAULT[c["k"]]).pint.magnitude, float), x, what)
    else:
        v = s.pint.magnitude if str(s.dtype).startswith("pint") else s
        close(np.asarray(v, float), x, what)


def check_series(case, ctx):
    import pint
    import portfolyo as pf
    from portfolyo.tools import unit as tu
    i = gen.build_index(case["i"])
    if case["plainindex"]:
        i = pd.RangeIndex(len(i))
    good = {}
    for j, c in enumerate(case["cols"]):
        s, x = make(c, i)
        if s is None:
            continue
        form = c["form"]
        ctx.label(form)
        before = s.copy(deep=True)
        if x is None:  # several dimensions
            must_raise(lambda: tu.avoid_frame_of_objects(s), (pint.DimensionalityError,), "series with several dimensions")
            d = tu.defaultunit(s)
            u = DEFAULT[c["k"]]
            f = BASE[c["k"]][c["u"][1]]
            for a, b in list(zip(d, s))[1:]:
                near(a.to(u).magnitude, b.magnitude * f, "value of series with several dimensions")
            m, us = tu.split_magn_unit(s)
            for a, b, w in zip(m, us, s):
                near(pf.Q_(a, b).to(w.units).magnitude, w.magnitude, "magnitude and unit in series with several dimensions")
            assert m.index.equals(i) and us.index.equals(i)
            assert d.index.equals(i)
            continue
        good[f"c{j}"] = (s, c, x)
        a = tu.avoid_frame_of_objects(s)
        assert a.dtype != object
        same_values(a, c, x, f"avoid_frame_of_objects of {form}")
        d = tu.defaultunit(s)
        same_values(d, c, x, f"defaultunit of {form}")
        m, u = tu.split_magn_unit(s)
        assert (u is not None) == dimensioned(form), f"unit of {form}: {u}"
        assert m.dtype.kind in ("fi" if form == "pint-int" else "f"), f"magnitude of {form} has dtype {m.dtype}"
        close(np.asarray(m, float), x * (1 if u is None else pf.Q_(1.0, DEFAULT[c["k"]]).to(u).magnitude), f"magnitude of {form}")
        for r in (a, d, m):
            assert r.index.equals(i) and r.index.freq == i.freq if not case["plainindex"] else r.index.equals(i), f"index of {form} was changed"
        if dimensioned(form):
            assert d.pint.units == tu.defaultunit(pf.Q_(1.0, DEFAULT[c["k"]])).units, f"default unit of {form}: {d.pint.units}"
        assert s.dtype == before.dtype and all(p == q for p, q in zip(s, before)), "argument was changed"
        ctx.nt(form not in ("float",))
    if good:
        df = pd.DataFrame({n: s for n, (s, _, _) in good.items()})
        for fn in (tu.avoid_frame_of_objects, tu.defaultunit):
            out = fn(df)
            assert list(out.columns) == list(df.columns)
            for n, (_, c, x) in good.items():
                same_values(out[n], c, x, f"{fn.__name__} of column {n} ({c['form']})")


@st.composite
def bad(draw):
    return {"k": draw(st.sampled_from(["name", "unit", "default", "series", "split"])), "x": draw(st.sampled_from(["z", "W", "MW", "", "price"])), "u": draw(st.sampled_from(["MW**2", "Eur/h", "tCO2", "h/MWh"]))}


def check_bad(case, ctx):
    import pint
    import portfolyo as pf
    from portfolyo.tools import unit as tu
    k = case["k"]
    i = pd.date_range("2024", freq="D", periods=3)
    if k == "name":
        must_raise(lambda: tu.from_name(case["x"]), (ValueError,), f"unit of name {case['x']}")
    elif k == "unit":
        must_raise(lambda: tu.to_name(pf.Unit(case["u"])), (pint.UndefinedUnitError,), f"name of unit {case['u']}")
        must_raise(lambda: pf.PfLine(pd.Series(1.0, i).astype(f"pint[{case['u']}]")), (Exception,), f"line from {case['u']}")
    elif k == "default":
        must_raise(lambda: tu.defaultunit(case["x"]), (TypeError,), "default unit of string")
    elif k == "split":
        must_raise(lambda: tu.split_magn_unit(pd.DataFrame({"a": [1.0]})), (TypeError,), "magnitude of frame")
    else:
        must_raise(lambda: tu.avoid_frame_of_objects(pd.Series(["a", "b", case["x"]], i)), (TypeError,), "series of strings")
    ctx.label(k)
    ctx.nt()


SUBS = [
    Sub("quantity", quantities, check_quantities, 1500, 20000, rule="quantities in any of 60 unit names (also upper-case or with blanks): conversion, default unit, magnitude and unit, name of dimension, "
        "sum, products and ratios of dimensions. Non-trivial: two different units."),
    Sub("series", series, check_series, 900, 14000, rule="series and frames of floats, ints, unit-aware values, quantities in one or several units or dimensions. Non-trivial: not just floats."),
    Sub("refuse", bad, check_bad, 40, 200, rule="unknown names, units and types. All non-trivial."),
]
