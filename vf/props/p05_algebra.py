from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..cmp import close, mag
from ..core import Sub, must_raise
from .p03_nested import pindex

NM = {"15min": 2, "h": 3, "D": 30, "MS": 14, "QS": 8, "YS": 4}
UNITS = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}


def shifted(draw, spec, smax=2):
    sh = draw(st.sampled_from([0, 0, 1, smax]))
    return gen.sub_spec(spec, draw(st.integers(-sh, sh)), max(1, spec["n"] + draw(st.integers(-sh, sh))))


@st.composite
def pairs(draw):
    spec = draw(gen.ispec(freqs=gen.ALLFREQS + ["QS-FEB", "YS-APR"], nmax=NM, long=40))
    kind = draw(st.sampled_from(model.KINDS + ["C"]))
    how = draw(st.integers(0, 3))
    ls = []
    for j in range(draw(st.integers(2, 3))):
        ls.append(draw(model.line(shifted(draw, spec), kind, depth=2, nested={0: False, 1: True}.get(how))))
    return {"ls": ls, "form": draw(st.sampled_from(["line", "line", "line", "dict", "series", "df"]))}


def other(d, form):
    """The other operand in another representation that carries the same information."""
    import pandas as pd
    r = model.raw(d)
    if "ch" in d or form == "line":
        return r if (form == "dict" and "ch" in d) else model.build(d)
    if form == "dict":
        return r
    pint = {k: s.astype(f"pint[{UNITS[k]}]") for k, s in r.items()}
    if form == "series" and len(pint) == 1:
        return next(iter(pint.values()))
    return pd.DataFrame(pint)


def check_add(case, ctx):
    import portfolyo as pf
    ds = case["ls"]
    ms = [model.model(d) for d in ds]
    ps = [model.build(d) for d in ds]
    a, b, ma, mb = ps[0], ps[1], ms[0], ms[1]
    ctx.label(ma.kind, f"{'N' if ma.nested else 'F'}{'N' if mb.nested else 'F'}", case["form"], ma.freq)
    L = model.common(ma, mb)
    if not L:
        must_raise(lambda: a + b, (Exception,), "sum without common period")
        must_raise(lambda: a - b, (Exception,), "difference without common period")
        ctx.label("disjoint")
        ctx.nt()
        return
    o = other(ds[1], case["form"])
    mab = model.add(ma, mb)
    model.check(a + o, mab, "a+b")
    if case["form"] == "dict":
        model.check(o + a, model.add(mb, ma), "dict+a")
    mdiff = model.add(ma, model.scale(mb, -1))
    diff = a - o
    model.check(diff, mdiff, "a-b")
    model.check(b + a, mab, "b+a")
    model.check(a + (-b), mdiff, "a+(-b)")
    model.check(b - a, model.add(mb, model.scale(ma, -1)), "b-a")
    if case["form"] == "dict":
        model.check(o - a, model.add(mb, model.scale(ma, -1)), "dict-a")
    ctx.nt(len(L) < max(len(ma.L), len(mb.L)) or ma.nested or mb.nested or ma.kind == "C")
    if len(L) < max(len(ma.L), len(mb.L)):
        ctx.label("partial")
    if len(ms) == 3:
        mc, c = ms[2], ps[2]
        if not model.common(mab, mc) or not model.common(mb, mc) or not model.common(ma, model.add(mb, mc)):
            return
        ctx.label("three")
        exp = model.add(mab, mc)
        x, y = (a + b) + c, a + (b + c)
        if ma.nested == mb.nested == mc.nested:
            model.check(x, exp, "(a+b)+c")
            model.check(y, exp, "a+(b+c)")
            model.check(sum([a, b, c]), exp, "sum([a,b,c])")
        else:  # which level flattens first may differ, the totals may not
            model.check(x.flatten(), exp.flat(), "(a+b)+c")
            model.check(y.flatten(), exp.flat(), "a+(b+c)")


@st.composite
def scales(draw):
    spec = draw(gen.ispec(freqs=gen.ALLFREQS + ["QS-FEB", "YS-APR"], nmax=NM, long=40))
    d = draw(model.line(spec, depth=2))
    f = draw(st.sampled_from(["int", "float", "npfloat", "quantity", "percent", "series", "series", "series", "dictseries", "dictfloat", "intseries"]))
    return {"d": d, "form": f, "k": draw(st.sampled_from([2, -1, 3, 0.5, 0.25, -1.5, 10, 1, 0.1, 1000])), "v": draw(gen.vals("nz")),
            "shift": [draw(st.integers(-2, 2)), draw(st.integers(-2, 2))], "spec": spec}


def check_scale(case, ctx):
    import pandas as pd
    import portfolyo as pf
    m, x = model.model(case["d"]), model.build(case["d"])
    form, k = case["form"], case["k"]
    ctx.label(m.kind, "N" if m.nested else "F", form, m.freq)
    ctx.nt(k not in (1,))
    n = len(m.L)
    if form in ("series", "dictseries", "intseries"):
        spec = case["spec"]
        a, b = case["shift"]  # how far the factors reach beyond the line (negative: they cover only part of it)
        a = max(a, 1 - spec["n"])
        b = max(b, 1 - spec["n"] - min(a, 0))
        ctx.label("partial factors" if min(a, b) < 0 else "full factors")
        s2 = gen.sub_spec(spec, -a, spec["n"] + a + b)
        i2 = gen.build_index(s2)
        v = gen.expand(case["v"], len(i2))
        if form == "intseries":
            v = np.where(v >= 0, np.ceil(np.abs(v)), -np.ceil(np.abs(v)))
        fac = pd.Series(v, i2).astype("pint[dimensionless]")
        if form == "intseries":
            fac = pd.Series(v.astype(int), i2).astype("pint[dimensionless]")
        if form == "dictseries":
            fac = {"nodim": pd.Series(v, i2)}
        pos = {e: j for j, e in enumerate(gen.epochs(i2))}
        mc = m.restrict(pos)
        f = np.array([v[pos[l]] for l in mc.L])
        inv = 1 / f
    else:
        f, inv, mc = k, 1 / k, m
        fac = {"int": int(k) if k == int(k) else k, "float": float(k), "npfloat": np.float64(k), "quantity": pf.Q_(float(k), ""),
               "percent": pf.Q_(k * 100.0, "percent") if hasattr(pf.ureg, "percent") else float(k), "dictfloat": {"nodim": float(k)}}[form]
    scaled = model.scale(mc, f)
    model.check(x * fac, scaled, "x*k")
    if form in ("int", "float", "dictfloat", "dictseries"):
        model.check(fac * x, scaled, "k*x")
    model.check(x / fac, model.scale(mc, inv), "x/k")
    model.check((x * fac) / fac, mc, "(x*k)/k")
    model.check(-x, model.scale(m, -1), "-x")
    model.check(-(-x), m, "-(-x)")
    if not (m.kind == "C" and m.nested):
        assert -(-x) == x, "-(-x) != x"
    model.check(x + x, model.scale(m, 2), "x+x")
    model.check(x * 2, model.scale(m, 2), "2x")
    model.check(x - x, model.scale(m, 0), "x-x") if m.kind != "C" else None
    if m.kind == "C":
        z = x - x
        for c in "wqr":
            close(mag(getattr(z, c), c), np.zeros(n), f"x-x {c}", atol=1e-9 * m.amp[c])
    model.check(x + 0, m, "x+0")
    model.check(0 + x, m, "0+x")
    model.check(x - 0, m, "x-0")
    model.check(x + 0.0, m, "x+0.0")
    model.check(0 - x, model.scale(m, -1), "0-x")
    if form != "series" and k != 0:
        # distributes over sums
        model.check((x + x * 3) * fac, model.scale(mc, np.asarray(f) * 4), "(x+3x)*k")


@st.composite
def consts(draw):
    spec = draw(gen.ispec(nmax=NM))
    kind = draw(st.sampled_from("VPR"))
    d = draw(model.line(spec, kind, depth=1))
    u = {"V": ["MW", "kW", "MWh", "GWh"], "P": ["Eur/MWh", "ct/kWh"], "R": ["Eur", "kEur"]}[kind]
    return {"d": d, "u": draw(st.sampled_from(u)), "c": draw(st.integers(-40, 40)) / 4, "form": draw(st.sampled_from(["quantity", "dict"]))}


FAC = {"MW": ("w", 1), "kW": ("w", 1e-3), "MWh": ("q", 1), "GWh": ("q", 1e3), "Eur/MWh": ("p", 1), "ct/kWh": ("p", 10), "Eur": ("r", 1), "kEur": ("r", 1e3)}


def check_const(case, ctx):
    """Adding a single quantity means adding it in every period."""
    import portfolyo as pf
    m, x = model.model(case["d"]), model.build(case["d"])
    key, f = FAC[case["u"]]
    c = case["c"] * f
    o = pf.Q_(case["c"], case["u"]) if case["form"] == "quantity" else {key: c}
    n = len(m.L)
    cols = {key: np.full(n, c)}
    if key == "w":
        cols["q"] = cols["w"] * m.hours
    if key == "q":
        cols["w"] = cols["q"] / m.hours
    om = m.flat().like(cols=cols)
    model.check(x + o, model.add(m, om), f"x + {o}")
    model.check(x - o, model.add(m, model.scale(om, -1)), f"x - {o}")
    if case["form"] == "dict":
        model.check(o + x, model.add(m, om), f"{o} + x")
    ctx.label(case["u"], case["form"])
    ctx.nt(c != 0)


SUBS = [
    Sub("add", pairs, check_add, 640, 12000, rule="2-3 lines of one kind on overlapping/disjoint spans, flat/nested mixes; sums, differences, "
        "commutativity, associativity against the model. Non-trivial: partial overlap, nested, or complete."),
    Sub("scale", scales, check_scale, 480, 9000, rule="scaling by number/quantity/series and its inverse, negation, doubling, zero. Non-trivial: factor not 1."),
    Sub("const", consts, check_const, 300, 3000, rule="adding a single quantity or a one-value dictionary. Non-trivial: constant not zero."),
]
