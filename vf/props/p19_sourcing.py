from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from ..refpeak import build_peakfn
from . import p12_hedge


@st.composite
def cases(draw):
    c = draw(p12_hedge.cases())
    spec = c["i"]
    if draw(st.integers(0, 3)):  # only full products
        d = cal.dt.date(*spec["start"])
        f = c["freq"]
        s = cal.floor_date(d, f)
        s = s if s == d else cal.next_start(s, f)
        k = draw(st.sampled_from([1, 1, 1, 2, 3])) if f in ("D", "MS") else 1
        if spec["freq"] == "15min" and f == "MS":
            k = 1
        e = cal.next_start(s, f, k)
        spec = {**spec, "start": [s.year, s.month, s.day], "n": (e - s).days}
    a = draw(P.state(spec, wide=draw(st.integers(0, 3)) == 0, nested=draw(st.sampled_from([None, False]))))
    return {"a": a, "how": c["how"], "peak": c["peak"], "freq": c["freq"]}


def products(A, case):
    from ..refpeak import is_peak
    pk = is_peak(case["peak"], A.off.L, A.off.R, A.off.tz) if case["peak"] else None
    for l, r, js in model.targets(A.off, case["freq"]):
        js = np.array(js)
        for x in [js] if pk is None else [js[pk[js]], js[~pk[js]]]:
            if len(x):
                yield x


def check(case, ctx):
    import portfolyo as pf
    A = P.model_of(case["a"])
    a = P.build(case["a"])
    fn = build_peakfn(case["peak"])
    args = (case["how"], fn, case["freq"])
    prods = list(products(A, case))
    rows = sorted(j for x in prods for j in x)
    full = rows == list(range(len(A.off.L)))
    u, p, h = A.q, A.pu.cols["p"], A.off.hours
    val = case["how"] == "val"
    W = np.full(len(u), np.nan)
    for x in prods:
        if not val:
            W[x] = u[x].sum() / h[x].sum()
        else:
            den = (p[x] * h[x]).sum()
            if abs(den) > 1e-3 * (np.abs(p[x]) * h[x]).sum():
                W[x] = (u[x] * p[x]).sum() / den
    if val and not np.isfinite(W[rows]).all():
        ctx.label("undetermined")
        return
    ctx.label(case["how"], case["freq"], A.off.freq, "peak" if fn else "base", "full" if full else "part" if rows else "none")
    if not rows:
        return
    hedge = a.hedge_of_unsourced(*args)
    same = a.unsourced.volume.hedge_with(a.unsourcedprice, *args)
    assert hedge == same, "hedge of unsourced vs hedging the unsourced volume at the unsourced prices"
    k = 1e3 if val else 1.0
    ampw = max(A.off.amp["w"] + A.src.amp["w"], 1e-9) * k
    same_index(hedge.index, [A.off.L[j] for j in rows], A.off.freq, A.off.tz, "hedge")
    close(mag(hedge.w, "w"), W[rows], "hedge power", atol=1e-9 * ampw)
    if not full:
        try:
            b = a.source_unsourced(*args)
        except ValueError:
            ctx.label("refused")
            return
        # if it is not refused, nothing may be lost or changed outside of the products
        assert b.offtakevolume == a.offtakevolume, "offtake changed"
        rest = [j for j in range(len(u)) if j not in set(rows)]
        close(mag(b.sourced.q, "q")[rest], A.src.cols["q"][rest], "sourced outside of products", atol=1e-9 * (A.aq + 1))
        return
    b = a.source_unsourced(*args)
    P.check_parts(b, P.S(A.off, A.pu, A.src.flat() if not P.model.is_nested(b.sourced) else A.src) if False else
                  P.S(A.off, A.pu, P.model.of(b.sourced)), "offtake and market price")
    aq, ar = (A.aq + ampw * h.max()) * len(h), (A.ar + ampw * h.max() * np.abs(p).max()) * len(h)
    close(mag(b.sourced.q, "q") - mag(a.sourced.q, "q"), W * h, "sourced volume added", atol=1e-9 * aq)
    hr = mag(hedge.r, "r")
    close(mag(b.sourced.r, "r") - mag(a.sourced.r, "r"), hr, "sourced revenue added", atol=1e-9 * ar)
    model.check(b.sourced, model.add(model.of(a.sourced), model.of(hedge)), "sourced part", rtol=1e-7)
    bq, br = mag(b.unsourced.q, "q"), mag(b.unsourced.r, "r")
    ca, cb = mag(a.pnl_cost.r, "r"), mag(b.pnl_cost.r, "r")
    for x in prods:
        if val:
            close([br[x].sum()], [0.0], "open market value of product", atol=1e-9 * ar)
        else:
            close([bq[x].sum()], [0.0], "open volume of product", atol=1e-9 * aq)
        close([cb[x].sum()], [ca[x].sum()], "procurement cost of product", atol=1e-9 * ar)
        close([mag(b.pnl_cost.q, "q")[x].sum()], [mag(a.pnl_cost.q, "q")[x].sum()], "procurement volume of product", atol=1e-9 * aq)
    P.balance(b, "sourced state")
    # sourcing once more changes nothing any more
    c = b.source_unsourced(*args)
    close(mag(c.sourced.q, "q"), mag(b.sourced.q, "q"), "second sourcing", atol=1e-8 * aq)
    ctx.nt(len(set(u)) > 1 and len(rows) > len(prods))


SUBS = [Sub("source", cases, check, 96, 3000, rule="source_unsourced/hedge_of_unsourced of generated states (volume/value, base/peak, daily to yearly products, also with "
            "incomplete products at the edges) against the reference calendar and accounting. Non-trivial: full products only, varying open "
            "position, more rows than products.")]
