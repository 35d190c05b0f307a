from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from ..refpeak import is_peak, peakspec, build_peakfn

SHORT = {"15min": 70, "h": 100, "D": 420}


@st.composite
def cases(draw, big=True):
    """Volume and price on (possibly different) overlapping spans that contain at least parts of products."""
    freq = draw(st.sampled_from(["15min", "h", "h", "h", "D", "D"]))
    hfreq = draw(st.sampled_from(["D", "MS", "MS", "QS", "YS"]))
    n = {"D": (1, 6), "MS": (31, 75), "QS": (92, 200), "YS": (366, 420)}[hfreq]
    if freq == "15min" and hfreq in ("QS", "YS"):
        hfreq, n = "MS", (31, 64)
    if freq == "h" and hfreq == "YS":
        n = (366, 372)
    if freq == "D" and hfreq in ("MS", "QS") and draw(st.integers(0, 3)) == 0:
        n = (367, 480)  # the same product of two years
    tz, sod = draw(st.sampled_from(gen.TZS)), list(draw(st.sampled_from(gen.SODS)))
    d = cal.floor_date(cal.dt.date(*draw(gen.dates(tz))), hfreq)
    if draw(st.integers(0, 2)) == 0:  # first product incomplete
        d -= cal.dt.timedelta(days=draw(st.integers(1, 3 if hfreq != "YS" else 2)))
    spec = {"freq": freq, "tz": tz, "sod": sod, "start": [d.year, d.month, d.day], "n": draw(st.integers(*n))}
    if n[0] != 367 and draw(st.integers(0, 2)):  # align to an exact product end
        e = cal.next_start(cal.floor_date(d, hfreq), hfreq, 1 if spec["start"][2] == 1 or hfreq == "D" else 2)
        spec["n"] = max(1, (e - d).days + draw(st.sampled_from([0, 0, 0, 0, -1, 1])))
        if freq == "15min":
            spec["n"] = min(spec["n"], 95)
    k = draw(st.sampled_from([0, 0, 0, 1, -1, 2]))
    pspec = gen.sub_spec(spec, k, spec["n"] + draw(st.sampled_from([0, 0, 1, -1]))) if k and spec["n"] > 3 else spec
    peak = draw(peakspec()) if freq != "D" and hfreq != "D" and draw(st.booleans()) else None
    return {"i": spec, "pi": pspec, "w": draw(gen.vals("any")), "p": draw(gen.vals(draw(st.sampled_from(["pos", "pos", "any"])))),
            "how": draw(st.sampled_from(["vol", "val"])), "peak": peak, "freq": hfreq, "units": draw(st.booleans()), "nested": draw(st.booleans())}


def reference(case):
    """Expected hedge: kept lefts/rights, power and price per row (nan where a value hedge is not determined), and products."""
    s = case["i"]
    wm = model.M("V", s["freq"], s["tz"], s["sod"], *[cal.bounds(s)[a:b] for a, b in ((0, -1), (1, None))],
                 cols=None or _wcols(case))
    pm = model.model({"k": "P", "i": case["pi"], "g": "p", "v": [case["p"]]})
    L = model.common(wm, pm)
    if not L:
        return None
    wm, pm = wm.restrict(L), pm.restrict(L)
    t = model.targets(wm, case["freq"])
    if not t:
        return None
    keep = [j for _, _, js in t for j in js]
    w, p, h = wm.cols["w"], pm.cols["p"], wm.hours
    W, P, prod = np.full(len(wm.L), np.nan), np.full(len(wm.L), np.nan), []
    pk = is_peak(case["peak"], wm.L, wm.R, s["tz"]) if case["peak"] else None
    for l, r, js in t:
        js = np.array(js)
        parts = [js] if pk is None else [js[pk[js]], js[~pk[js]]]
        for x in parts:
            if not len(x):
                continue
            P[x] = (p[x] * h[x]).sum() / h[x].sum()
            if case["how"] == "vol":
                W[x] = (w[x] * h[x]).sum() / h[x].sum()
            else:
                den = (p[x] * h[x]).sum()
                if abs(den) > 1e-3 * (np.abs(p[x]) * h[x]).sum() and den != 0:
                    W[x] = (w[x] * p[x] * h[x]).sum() / den
            prod.append(x)
    return wm, pm, keep, W, P, prod


def _wcols(case):
    m = model.model({"k": "V", "i": case["i"], "g": "w", "v": [case["w"]]})
    return m.cols


def series(case):
    w, p = gen.series(case["i"], case["w"]), gen.series(case["pi"], case["p"])
    if case["units"]:
        w, p = w.astype("pint[MW]"), p.astype("pint[Eur/MWh]")
    return w, p


def verify(wout, pout, ref, case, what, exact_p=True):
    wm, pm, keep, W, P, prod = ref
    s = case["i"]
    L = [wm.L[j] for j in keep]
    for x in (wout, pout):
        same_index(x.index, L, s["freq"], s["tz"], what)
    gw, gp = np.full(len(wm.L), np.nan), np.full(len(wm.L), np.nan)
    gw[keep], gp[keep] = mag(wout, "w" if hasattr(wout, "pint") else None), mag(pout, "p" if hasattr(pout, "pint") else None)
    w, p, h = wm.cols["w"], pm.cols["p"], wm.hours
    for x in prod:
        det = np.isfinite(W[x]).all()
        ampw, ampp = np.abs(w[x]).max(), np.abs(p[x]).max()
        close(gp[x], P[x], f"{what}: price per product", atol=1e-9 * ampp)
        assert len(set(gp[x])) == 1, f"{what}: price not uniform in product"
        if det:
            k = 1.0 if case["how"] == "vol" else 1e3
            close(gw[x], W[x], f"{what}: power per product", atol=1e-9 * ampw * k)
            assert len(set(gw[x])) == 1, f"{what}: power not uniform in product"
            if case["how"] == "vol":
                close([(gw[x] * h[x]).sum()], [(w[x] * h[x]).sum()], f"{what}: energy of product", atol=1e-9 * ampw * h[x].sum())
            else:
                close([(gw[x] * p[x] * h[x]).sum()], [(w[x] * p[x] * h[x]).sum()], f"{what}: value of product at market prices",
                      atol=1e-6 * ampw * ampp * h[x].sum())


def check(case, ctx):
    import portfolyo as pf
    ref = reference(case)
    w, p = series(case)
    fn = build_peakfn(case["peak"])
    if ref is None:
        try:
            a, b = pf.hedge(w, p, case["how"], fn, case["freq"])
        except ValueError:
            return
        assert len(a) == 0 and len(b) == 0, "hedge without a full product period is not empty"
        ctx.label("empty")
        return
    a, b = pf.hedge(w, p, case["how"], fn, case["freq"])
    assert hasattr(a, "pint") == hasattr(b, "pint") == case["units"], "units of hedge"
    verify(a, b, ref, case, "hedge")
    ctx.nt(len(ref[5]) >= 1 and len(set(case["w"]["pool"])) > 1 and len(ref[2]) > len(ref[5]))
    ctx.label(case["freq"], case["how"], "peak" if fn else "base", "sod" if case["i"]["sod"] != [0, 0] else "midnight", case["i"]["freq"],
              f"products{min(4, len(ref[5]))}", "trimmed" if len(ref[2]) < len(ref[0].L) else "full")


def check_line(case, ctx):
    import portfolyo as pf
    ref = reference(case)
    fn = build_peakfn(case["peak"])
    w, p = series(case)
    wl = pf.PfLine({"w": w})
    if case["nested"]:
        wl = pf.PfLine({"a": wl * 0.25, "b": wl * 0.75})
    pl = pf.PfLine({"p": p})
    if ref is None:
        ctx.label("empty")
        try:
            h = wl.hedge_with(pl, case["how"], fn, case["freq"])
        except (ValueError, NotImplementedError):
            return
        assert len(h.index) == 0, "hedge without a full product period is not empty"
        return
    if case["how"] == "val" and not np.isfinite(ref[3][ref[2]]).all():
        ctx.label("undetermined")
        return
    h = wl.hedge_with(pl, case["how"], fn, case["freq"])
    assert h.kind is pf.COMPLETE and h.structure is pf.Structure.FLAT, (h.kind, h.structure)
    verify(h.w, h.p, ref, case, "hedge_with")
    q, r = mag(h.q, "q"), mag(h.r, "r")
    hh = ref[0].hours[ref[2]]
    close(q, mag(h.w, "w") * hh, "energy of hedge")
    close(r, q * mag(h.p, "p"), "revenue of hedge")
    # a complete line is hedged like its volume
    c = pf.PfLine({"w": w, "p": pf.Q_(3.0, "Eur/MWh")})
    assert c.hedge_with(pl, case["how"], fn, case["freq"]) == pf.PfLine({"w": w}).hedge_with(pl, case["how"], fn, case["freq"]), "complete line"
    ctx.nt(len(set(case["w"]["pool"])) > 1 and len(ref[2]) > len(ref[5]))
    ctx.label(case["freq"], case["how"], "peak" if fn else "base", "nested" if case["nested"] else "flat")


@st.composite
def bad(draw):
    c = draw(cases())
    c["k"] = draw(st.sampled_from(["how", "freq", "longfreq", "unequal", "nofreq", "peakday"]))
    return c


def check_bad(case, ctx):
    import portfolyo as pf
    w, p = series(case)
    k = case["k"]
    ctx.label(k)
    ctx.nt()
    E = (ValueError, AssertionError)
    if k == "how":
        must_raise(lambda: pf.hedge(w, p, "volume", None, case["freq"]), E, k)
    elif k == "freq":
        for f in ("h", "15min", "W", "QS-APR"):
            must_raise(lambda: pf.hedge(w, p, "vol", None, f), E, f"hedge frequency {f}")
    elif k == "longfreq":
        sp = {**case["i"], "freq": "MS", "start": case["i"]["start"][:2] + [1], "n": 12}
        w, p = gen.series(sp, case["w"]), gen.series(sp, case["p"])
        must_raise(lambda: pf.hedge(w, p, "vol", None, "YS"), E, "monthly data")
    elif k == "unequal":
        sp = {**case["pi"], "freq": "h" if case["pi"]["freq"] != "h" else "D"}
        must_raise(lambda: pf.hedge(w, gen.series(sp, case["p"]), "vol", None, case["freq"]), E, "unequal frequency")
    elif k == "nofreq":
        w.index.freq = None
        must_raise(lambda: pf.hedge(w, p, "vol", None, case["freq"]), E, "no frequency")
    elif k == "peakday":
        fn = pf.germanpower_peakfn
        if case["i"]["freq"] == "D":
            must_raise(lambda: pf.hedge(w, p, "vol", fn, "MS"), E, "peak of daily data")
        else:
            must_raise(lambda: pf.hedge(w, p, "vol", fn, "D"), E, "peak with daily products")


SUBS = [
    Sub("hedge", cases, check, 400, 6000, rule="pf.hedge of generated power and price series (base or peak/offpeak; daily to yearly products; partial products at "
        "the edges, different spans, DST, any start-of-day) against an independent product calendar. Non-trivial: at least one full product, "
        "varying power, more rows than products."),
    Sub("line", cases, check_line, 200, 3000, rule="the same via PfLine.hedge_with for flat/nested volume and complete lines. Non-trivial as above."),
    Sub("refuse", bad, check_bad, 80, 600, rule="invalid frequency, method, index and peak combinations are refused. All non-trivial."),
]
