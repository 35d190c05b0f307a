from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from .p05_algebra import NM, shifted, other


@st.composite
def pairs(draw):
    spec = draw(gen.ispec(freqs=gen.ALLFREQS + ["QS-FEB", "YS-APR"], nmax=NM, long=40))
    a, b = draw(st.sampled_from(["VP", "PV", "RP", "RV", "VV", "PP", "RR", "V|P", "P|V", "V|R", "R|V", "P|R", "R|P"]).map(lambda s: (s[0], s[1:])))
    kinds = (a, b[-1])
    ds = [draw(model.line(shifted(draw, spec), k, depth=1, sign="nz")) for k in kinds]
    return {"op": a + b, "ls": ds, "form": draw(st.sampled_from(["line", "line", "series", "dict", "df", "parts"]))}


def fullcols(m, q, r):
    p = model.div(r, q)
    return {"w": q / m.hours, "q": q, "p": p, "r": r}


def check_pair(case, ctx):
    import pandas as pd
    import portfolyo as pf
    ds, op = case["ls"], case["op"]
    ms = [model.model(d).flat() for d in ds]
    a = model.build(ds[0])
    b = other(ds[1], case["form"] if case["form"] != "parts" else "line")
    L = model.common(*ms)
    ctx.label(op, case["form"], "disjoint" if not L else "partial" if len(L) < max(len(m.L) for m in ms) else "same")
    fn = {"VP": lambda x, y: x * y, "PV": lambda x, y: x * y, "RP": lambda x, y: x / y, "RV": lambda x, y: x / y, "VV": lambda x, y: x / y,
          "PP": lambda x, y: x / y, "RR": lambda x, y: x / y}.get(op, lambda x, y: x | y)
    if not L:
        ctx.nt()
        try:
            out = fn(a, b)
        except Exception:
            return
        assert len(out.index) == 0, f"{op} without common periods gives a result on {len(out.index)} periods"
        return
    x, y = ms[0].restrict(L), ms[1].restrict(L)
    if case["form"] == "parts":  # the operand is part of a line that has more information
        if len(L) == len(ms[0].L) == len(ms[1].L) and op in ("VP", "V|P", "RV", "R|V") and "ch" not in ds[0] and "ch" not in ds[1]:
            full = (model.build(ds[0]) | model.build(ds[1]))
            a = {"V": lambda: full.volume, "P": lambda: full.price, "R": lambda: full.revenue}[op[0]]()
            b = {"V": lambda: full.volume, "P": lambda: full.price, "R": lambda: full.revenue}[op[-1]]()
    out = fn(a, b)
    ctx.nt(len(L) < max(len(m.L) for m in ms) or "ch" in ds[0] or "ch" in ds[1])
    if op in ("VP", "PV"):
        v, p = (x, y) if op == "VP" else (y, x)
        model.check(out, x.like(kind="R", cols={"r": v.cols["q"] * p.cols["p"]}), op)
    elif op == "RP":
        q = model.div(x.cols["r"], y.cols["p"])
        sel = np.isfinite(q)
        if sel.all():
            model.check(out, x.like(kind="V", cols={"q": q, "w": q / x.hours}), op)
    elif op == "RV":
        p = model.div(x.cols["r"], y.cols["q"])
        if np.isfinite(p).all():
            model.check(out, x.like(kind="P", cols={"p": p}), op)
    elif op in ("VV", "PP", "RR"):
        k = {"V": "q", "P": "p", "R": "r"}[op[0]]
        same_index(out.index, L, x.freq, x.tz, op)
        exp = model.div(x.cols[k], y.cols[k])
        assert not hasattr(out, "pint") or out.pint.units.dimensionless, f"ratio has unit {out.dtype}"
        got = np.asarray(out.pint.to("dimensionless").pint.magnitude, float) if hasattr(out, "pint") else np.asarray(out, float)
        sel = np.isfinite(exp)
        close(got[sel], exp[sel], "ratio")
    else:
        c = {**x.cols, **y.cols}
        if "q" not in c:
            c["q"] = model.div(c["r"], c["p"])
        r = c["r"] if "r" in c else c["q"] * c["p"]
        if not np.isfinite(c["q"]).all() or (op in ("P|R", "R|P") and (np.abs(c["p"]) < 1e-6).any()):
            return
        exp = x.like(kind="C", cols=fullcols(x, c["q"], r))
        model.check(out, exp, op)
        # and the parts of the union are the operands again
        model.check(out.volume, exp.part("V"), op)
        for mm in (x, y):
            part = {"V": lambda: out.volume, "P": lambda: out.price, "R": lambda: out.revenue}[mm.kind]()
            if mm.kind != "P" or (c["q"] != 0).all():
                model.check(part, mm, f"{op} part")
    # the other way round
    if "|" in op or op in ("VP", "PV"):
        o2 = fn(model.build(ds[1]), model.build(ds[0]))
        model.check(o2, model.of(fn(model.build(ds[0]), model.build(ds[1]))), "swapped")


REFUSED = ["add-kind", "sub-kind", "mul-same", "mul-R", "mul-C", "div-C", "div-VP", "div-PR", "div-PV", "div-VR", "add-number", "radd-number", "sub-number",
           "add-bareseries", "union-same", "union-C", "union-number", "freq", "tz", "tznaive", "sod", "number/line", "add-wrongunit", "mul-wrongunit",
           "div-series-dim", "add-dimless", "mul-string", "add-none-mul", "nested-kinds"]


@st.composite
def refusals(draw):
    what = draw(st.sampled_from(REFUSED))
    nm = {"15min": 1, "h": 2, "D": 12, "MS": 8, "QS": 5, "YS": 3}
    spec = draw(gen.ispec(freqs=["15min", "h", "D", "MS", "QS", "YS"], nmax=nm))
    c = {"what": what, "op": draw(st.sampled_from(["+", "-", "*", "/", "|"])), "num": draw(st.sampled_from([1, 2.5, -3, 0.001])), "ls": []}
    ks = {"mul-same": ["V", "V"], "div-VP": ["V", "P"], "div-PR": ["P", "R"], "div-PV": ["P", "V"], "div-VR": ["V", "R"], "div-C": ["C", "C"]}.get(what)
    if ks is None:
        if what in ("add-kind", "sub-kind"):
            ks = draw(st.lists(st.sampled_from("VPRC"), min_size=2, max_size=2, unique=True))
        elif what == "mul-R":
            ks = ["R", draw(st.sampled_from("VPRC"))]
        elif what in ("mul-C", "union-C"):
            ks = ["C", draw(st.sampled_from("VPRC"))]
        elif what == "nested-kinds":
            ks = draw(st.lists(st.sampled_from("VPRC"), min_size=2, max_size=2, unique=True))
        else:
            k = draw(st.sampled_from("VPRC"))
            ks = [k, k]
            if what in ("freq", "tz", "tznaive", "sod"):
                c["op"], ks = draw(st.sampled_from([["+", ["V", "V"]], ["-", ["P", "P"]], ["*", ["V", "P"]], ["/", ["R", "V"]], ["/", ["P", "P"]], ["|", ["V", "P"]],
                                                   ["+", ["C", "C"]], ["|", ["R", "V"]], ["*s", ["V", "V"]], ["/s", ["C", "V"]]]))
    specs = [spec, dict(spec)]
    if what == "mul-same":
        ks = draw(st.sampled_from([["V", "V"], ["P", "P"]]))
    if what == "freq":
        f = draw(st.sampled_from([x for x in gen.ALLFREQS + ["QS-FEB", "YS-APR"] if x != spec["freq"]]))
        d = cal.floor_date(cal.dt.date(*spec["start"]), f)
        specs[1] = {**spec, "freq": f, "start": [d.year, d.month, d.day], "n": 2}
    elif what == "tz":
        specs[0]["tz"], specs[1]["tz"] = draw(st.sampled_from([("Europe/Berlin", "Asia/Kolkata"), ("UTC", "Europe/Berlin"), ("Europe/London", "UTC"),
                                                               ("Europe/Berlin", "Europe/London")]))
    elif what == "tznaive":
        specs[0]["tz"], specs[1]["tz"] = draw(st.sampled_from([("Europe/Berlin", None), (None, "UTC"), (None, "Asia/Kolkata")]))
    elif what == "sod":
        specs[0]["sod"], specs[1]["sod"] = draw(st.sampled_from([([0, 0], [6, 0]), ([5, 0], [0, 0]), ([6, 0], [5, 0])]))
    c["ls"] = [draw(model.line(s, k, depth=1, sign="nz")) for s, k in zip(specs, ks)]
    return c


def check_refusal(case, ctx):
    import pandas as pd
    import portfolyo as pf
    what, num = case["what"], case["num"]
    a, b = (model.build(d) for d in case["ls"])
    s = pd.Series(1.5, a.index)
    if case["num"] == -3 and len(s) > 1:  # cancels out, but is not zero
        s.iloc[:] = [(-5.0, 5.0)[j % 2] if j < len(s) // 2 * 2 else 0.0 for j in range(len(s))]
    ops = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "|": lambda x, y: x | y,
           "*s": lambda x, y: x * pd.Series(2.0, y.index).astype("pint[dimensionless]"), "/s": lambda x, y: x / pd.Series(2.0, y.index).astype("pint[dimensionless]")}
    ka = case["ls"][0]["k"]
    wrong = {"V": "Eur/MWh", "P": "Eur", "R": "MW", "C": "MW"}[ka]
    fn = {
        "add-kind": lambda: a + b, "sub-kind": lambda: a - b, "mul-same": lambda: a * b, "mul-R": lambda: a * b, "mul-C": lambda: a * b,
        "div-C": lambda: a / b, "div-VP": lambda: a / b, "div-PR": lambda: a / b, "div-PV": lambda: a / b, "div-VR": lambda: a / b,
        "add-number": lambda: a + num, "radd-number": lambda: num + a, "sub-number": lambda: a - num, "add-bareseries": lambda: a + s,
        "union-same": lambda: a | b, "union-C": lambda: a | b, "union-number": lambda: a | num, "number/line": lambda: num / a,
        "add-wrongunit": lambda: a + pf.Q_(3.0, wrong), "mul-wrongunit": lambda: a * pf.Q_(3.0, "Eur"),
        "div-series-dim": lambda: a / {"V": pf.Q_(2.0, "Eur"), "P": pf.Q_(2.0, "MWh"), "R": pf.Q_(2.0, "hour"), "C": pf.Q_(2.0, "MW")}[ka],
        "add-dimless": lambda: a + s.astype("pint[dimensionless]"), "mul-string": lambda: a * "3", "add-none-mul": lambda: a * None,
        "nested-kinds": lambda: pf.PfLine({"x": a, "y": b}),
    }.get(what) or (lambda: ops[case["op"]](a, b))
    must_raise(fn, (Exception,), f"{what} {case['op']}")
    ctx.label(what)
    ctx.nt()


SUBS = [
    Sub("pairs", pairs, check_pair, 900, 15000, rule="products, ratios and unions of lines on overlapping or disjoint spans, operands as line/series/dict/frame. "
        "Non-trivial: spans differ or nested operand."),
    Sub("refused", refusals, check_refusal, 500, 6000, rule="combinations without physical meaning must raise. All non-trivial."),
]
