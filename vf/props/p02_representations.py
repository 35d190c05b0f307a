from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..core import Sub, must_raise

# unit -> factor to the default unit (MW, MWh, Eur/MWh, Eur), from physics, not from the registry
UNITS = {
    "w": {"MW": 1, "kW": 1e-3, "W": 1e-6, "GW": 1e3, "MWh/h": 1, "kWh/h": 1e-3, "tce/h": 6.978, "toe/hour": 11.63,
          "GWh/h": 1e3, "kWh/min": 0.06, "MJ/s": 1},
    "q": {"MWh": 1, "kWh": 1e-3, "Wh": 1e-6, "GWh": 1e3, "J": 1 / 3.6e9, "MJ": 1 / 3600, "GJ": 1 / 3.6, "tce": 6.978,
          "toe": 11.63, "MW*h": 1, "kW*h": 1e-3, "MW*s": 1 / 3600},
    "p": {"Eur/MWh": 1, "euro_per_MWh": 1, "cent_per_kWh": 10, "ct/kWh": 10, "Eur/kWh": 1e3, "kEur/GWh": 1,
          "kEur/MWh": 1e3, "Eur/tce": 1 / 6.978, "ctEur/tce": 0.01 / 6.978, "Eur/GWh": 1e-3, "cent/kWh": 10, "Eur/GJ": 3.6},
    "r": {"Eur": 1, "euro": 1, "kEur": 1e3, "MEur": 1e6, "ct": 0.01, "cent": 0.01, "eurocent": 0.01, "ctEur": 0.01,
          "€": 1, "keuro": 1e3},
}
FORMS = ["dict-float", "dict-pint", "df-float", "df-pint", "list-pint", "tuple-pint", "gen-pint", "dict-tuplekey",
         "dict-tuplekey2", "dict-scalar", "dict-quantity", "series-objects", "series-objects-mixed", "single-series", "dict-int", "df-multi", "series-of-series",
         "inop-pfline", "list-dict", "list-quantity"]


@st.composite
def cases(draw):
    spec = draw(gen.ispec(nmax={"15min": 2, "h": 3, "D": 20, "MS": 12, "QS": 6, "YS": 3}, long=40))
    kind = draw(st.sampled_from(["V", "P", "R", "C", "C"]))
    d = draw(model.leaf(kind, spec))
    units = [draw(st.sampled_from(sorted(UNITS[k]))) for k in d["g"]]
    return {"d": d, "units": units, "form": draw(st.sampled_from(FORMS)), "order": draw(st.booleans()),
            "intvals": draw(st.booleans()), "which": draw(st.integers(0, 1))}


def check(case, ctx):
    import portfolyo as pf
    import pandas as pd
    d, form = case["d"], case["form"]
    d = {**d, "v": [dict(v) for v in d["v"]]}
    if case["intvals"] or form == "dict-int":
        for v in d["v"]:
            v["pool"] = [float(max(1, round(abs(x)))) * (1 if x >= 0 else -1) if d["g"] in ("qr", "wr", "pr") else float(round(x)) for x in v["pool"]]
            v["e"] = 0
    i = gen.build_index(d["i"])
    n = len(i)
    const = form in ("dict-scalar", "dict-quantity", "list-quantity")
    which = case["which"] % len(d["g"])
    if const and len(d["g"]) == 1:
        form = "dict-pint"
        const = False
    if const:  # the scalar one becomes constant
        d["v"][which]["pool"] = d["v"][which]["pool"][:1]
    m = model.model(d)
    vals = {k: gen.expand(v, n) for k, v in zip(d["g"], d["v"])}
    ser = {k: pd.Series(x, i) for k, x in vals.items()}
    fac = {k: UNITS[k][u] for k, u in zip(d["g"], case["units"])}
    unit = dict(zip(d["g"], case["units"]))
    keys = list(d["g"])
    if case["order"]:
        keys = keys[::-1]

    def pint(k):
        return (ser[k] / fac[k]).astype(f"pint[{unit[k]}]")
    if form == "dict-float":
        data = {k: ser[k] for k in keys}
    elif form == "dict-int":
        data = {k: ser[k].astype(int) for k in keys}
    elif form == "dict-pint":
        data = {k: pint(k) for k in keys}
    elif form == "df-float":
        data = pd.DataFrame({k: ser[k] for k in keys})
    elif form == "df-pint":
        data = pd.DataFrame({k: pint(k) for k in keys})
    elif form == "df-multi":
        data = pd.concat([pd.DataFrame({k: pint(k)}) for k in keys], axis=1)
    elif form == "list-pint":
        data = [pint(k) for k in keys]
    elif form == "tuple-pint":
        data = tuple(pint(k) for k in keys)
    elif form == "gen-pint":
        data = iter([pint(k) for k in keys])
    elif form == "dict-tuplekey":
        data = {(k, "pf1"): ser[k] for k in keys}
    elif form == "dict-tuplekey2":
        data = {("pf1", k): pint(k) for k in keys}
    elif form == "list-dict":
        data = [{k: ser[k]} for k in keys]
    elif form == "dict-scalar":
        k0 = d["g"][which]
        data = {k: (float(vals[k][0]) if k == k0 else ser[k]) for k in keys}
    elif form == "dict-quantity":
        k0 = d["g"][which]
        data = {k: (pf.Q_(vals[k][0] / fac[k], unit[k]) if k == k0 else ser[k]) for k in keys}
    elif form == "list-quantity":
        k0 = d["g"][which]
        data = [(pf.Q_(vals[k][0] / fac[k], unit[k]) if k == k0 else pint(k)) for k in keys]
    elif form == "series-objects":
        data = {k: pd.Series([pf.Q_(x / fac[k], unit[k]) for x in vals[k]], i) for k in keys}
    elif form == "series-objects-mixed":  # every value in its own unit
        us = sorted(UNITS[keys[0]]) if len(keys) == 1 else None
        data = {}
        for k in keys:
            us = sorted(u for u in UNITS[k] if u != "€")
            data[k] = pd.Series([pf.Q_(x / UNITS[k][us[(j * 3 + case["which"]) % len(us)]], us[(j * 3 + case["which"]) % len(us)]) for j, x in enumerate(vals[k])], i, dtype=object)
    elif form == "series-of-series":
        data = pd.Series({k: pint(k) for k in keys})
    elif form == "single-series":
        data = pint(keys[0]) if len(keys) == 1 else [pint(k) for k in keys]
    elif form == "inop-pfline":
        data = pf.PfLine({k: ser[k] for k in keys})
    pfl = pf.PfLine(data)
    model.check(pfl, m, form, rtol=1e-6)
    base = pf.PfLine({k: ser[k] for k in d["g"]})
    assert pfl == base, f"{form} gives a line that differs from the one from plain numbers"
    ctx.label(form, d["g"], d["i"]["freq"])
    ctx.nt(any(f != 1 for f in fac.values()) or form not in ("dict-float",))


@st.composite
def overlaps(draw):
    spec = draw(gen.ispec(nmax={"15min": 3, "h": 5, "D": 20, "MS": 12, "QS": 8, "YS": 4}, nmin=2))
    g = draw(st.sampled_from(["wp", "qp", "qr", "wr", "pr", "wq", "wqp"]))
    spans = [[draw(st.integers(0, 3)), draw(st.integers(0, 3))] for _ in g]
    return {"i": spec, "g": g, "spans": spans, "v": [draw(gen.vals("nz")) for _ in g], "cont": draw(st.sampled_from(["dict", "list"])),
            "step": draw(st.sampled_from(["unit", "period"]))}


def check_overlap(case, ctx):
    import portfolyo as pf
    import pandas as pd
    spec, g = case["i"], case["g"]
    full = cal.bounds(spec)
    n = len(full) - 1
    h = np.diff(full) / 3600
    if "w" in g and "q" in g:  # keep consistent
        w = gen.expand(case["v"][0], n)
        vals = {"w": w, "q": w * h}
        if "p" in g:
            vals["p"] = gen.expand(case["v"][2], n)
    else:
        vals = {k: gen.expand(v, n) for k, v in zip(g, case["v"])}
    i = gen.build_index(spec)
    per = 1
    if spec["freq"] in cal.STEP:  # cut whole days
        b = [cal.bound(cal.dt.date(*spec["start"]) + cal.dt.timedelta(days=x), spec["sod"], spec["tz"]) for x in range(spec["n"] + 1)]
        pos = {e: j for j, e in enumerate(full)}
        cuts = [pos[x] for x in b]
    else:
        cuts = list(range(n + 1))
    keep = set(range(n))
    data = {}
    for k, (a, z) in zip(g, case["spans"]):
        lo, hi = cuts[min(a, len(cuts) - 1)], cuts[max(0, len(cuts) - 1 - z)]
        if lo >= hi:
            lo, hi = 0, n
        s = pd.Series(vals[k][lo:hi], i[lo:hi])
        if case["cont"] == "list":
            s = s.astype({"w": "pint[MW]", "q": "pint[MWh]", "p": "pint[Eur/MWh]", "r": "pint[Eur]"}[k])
        data[k] = s
        keep &= set(range(lo, hi))
    keep = sorted(keep)
    obj = data if case["cont"] == "dict" else list(data.values())
    ctx.label(g, "empty" if not keep else "partial" if len(keep) < n else "full")
    ctx.nt(len(keep) < n)
    if not keep:
        must_raise(lambda: pf.PfLine(obj), (ValueError,), "no common periods")
        return
    pfl = pf.PfLine(obj)
    L, R = [full[j] for j in keep], [full[j + 1] for j in keep]
    hh = h[keep]
    c = {k: vals[k][keep] for k in g}
    if "q" not in c and "w" in c:
        c["q"] = c["w"] * hh
    if "p" in c and "r" in c and "q" not in c:
        c["q"] = c["r"] / c["p"]
    c["w"] = c["q"] / hh
    kind = "C" if set(g) & {"p", "r"} else "V"
    if kind == "C":
        if "p" in c:
            c["r"] = c["p"] * c["q"]
        else:
            c["p"] = c["r"] / c["q"]
    m = model.M(kind, spec["freq"], spec["tz"], spec["sod"], L, R, cols={k: c[k] for k in model.COLS[kind]})
    model.check(pfl, m, "overlap")


@st.composite
def ambiguous(draw):
    spec = draw(gen.ispec(nmax={"15min": 1, "h": 2, "D": 5, "MS": 4, "QS": 3, "YS": 2}))
    return {"i": spec, "what": draw(st.sampled_from(["float", "series", "dimless", "wrongkey", "dup", "scalaronly", "listfloat",
            "temperature", "time", "mix", "extra", "string", "emptydict", "wrongdim"])), "v": draw(gen.vals()),
            "k": draw(st.sampled_from(["w", "q", "p", "r"]))}


def check_ambiguous(case, ctx):
    import portfolyo as pf
    import pandas as pd
    i = gen.build_index(case["i"])
    s = pd.Series(gen.expand(case["v"], len(i)), i)
    k, what = case["k"], case["what"]
    u = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}
    data = {
        "float": 3.5, "series": s, "dimless": s.astype("pint[dimensionless]"), "wrongkey": {"x1": s}, "extra": {k: s, "foo": 2.5},
        "dup": [s.astype(f"pint[{u[k]}]"), s.astype(f"pint[{u[k]}]")], "scalaronly": {k: 4.0}, "listfloat": [s, 3.0],
        "temperature": {"t": s}, "time": s.astype("pint[h]"), "mix": {k: s, "nodim": s}, "string": "not a line", "emptydict": {},
        "wrongdim": {k: s.astype(f"pint[{u[{'w': 'q', 'q': 'p', 'p': 'r', 'r': 'w'}[k]]}]")},
    }[what]
    must_raise(lambda: pf.PfLine(data), (Exception,), what)
    ctx.label(what)
    ctx.nt()


SUBS = [
    Sub("forms", cases, check, 2400, 30000, rule="flat data given in one of 19 container forms with random units per dimension; the line "
        "must equal the model computed with independent conversion factors and the line from plain numbers. Non-trivial: non-default unit or non-plain form."),
    Sub("overlap", overlaps, check_overlap, 1000, 12000, rule="series covering different spans; only common periods are kept. Non-trivial: spans differ."),
    Sub("ambiguous", ambiguous, check_ambiguous, 300, 2000, rule="inputs without (or with contradicting) dimension are refused. All non-trivial."),
]
