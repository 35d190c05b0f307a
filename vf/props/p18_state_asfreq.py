from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise

NM = {"15min": 40, "h": 62, "D": 380, "MS": 40, "QS": 13, "YS": 5}
LONGER = {"15min": ["h", "D", "MS"], "h": ["D", "MS"], "D": ["MS", "MS", "QS", "YS"], "MS": ["QS", "YS"], "QS": ["YS"]}


@st.composite
def down(draw):
    f = draw(st.sampled_from(["15min", "h", "h", "D", "D", "D", "MS", "MS", "QS"]))
    t = draw(st.sampled_from(LONGER[f]))
    lo = {"D": 1, "h": 1, "MS": 31, "QS": 92, "YS": 366}[t] if f in ("15min", "h", "D") else {"QS": 3, "YS": 12 if f == "MS" else 4}[t]
    if f == "15min" and t == "MS":
        f = "h"
    tz = draw(st.sampled_from(gen.TZS))
    d = cal.floor_date(cal.dt.date(*draw(gen.dates(tz))), t if draw(st.integers(0, 2)) else f)
    n = lo + draw(st.integers(0, {"D": 4, "h": 3, "MS": 32, "QS": 60, "YS": 40}[t] if f in ("15min", "h", "D") else lo * 2))
    spec = {"freq": f, "tz": tz, "sod": list(draw(st.sampled_from(gen.SODS))), "start": [d.year, d.month, d.day], "n": n}
    a = draw(P.state(spec, wide=draw(st.integers(0, 3)) == 0, sign=draw(st.sampled_from(["any", "pos"]))))
    how = draw(st.sampled_from(["", "", "", "", "closed", "cancel"]))
    if how == "closed":  # every period fully sourced: nothing open at all
        a["o"] = {"k": "V", "i": spec, "g": "w", "v": [draw(gen.vals("nz"))]}
        v = dict(a["o"]["v"][0])
        v["pool"] = [-x for x in v["pool"]]
        a["s"] = {"k": "C", "i": spec, "g": "wp", "v": [v, draw(gen.vals("any"))]}
    if how == "cancel":  # long and short periods that cancel out
        x = draw(gen.vals("pos"))["pool"][0]
        a["o"] = {"k": "V", "i": spec, "g": "w", "v": [{"pool": [x, -x], "a": 1, "b": 0, "e": 0}]}
        a.pop("s", None)
    return {"a": a, "t": t, "how": how}


def check_down(case, ctx):
    A = P.model_of(case["a"])
    a = P.build(case["a"])
    t = case["t"]
    off = model.downsample(A.off, t)
    if off is None:
        must_raise(lambda: a.asfreq(t), (ValueError,), "no full target period")
        ctx.label("nofull")
        return
    src = model.downsample(A.src, t)
    uq, ur, pu, h = A.q, A.r, A.pu.cols["p"], A.off.hours
    gq = np.abs(A.off.flat().cols["q"]) + A.src.flat().cols["gq"]
    Q, R, Pw, G, Pavg, none = [], [], [], [], [], []
    for l, r, js in model.targets(A.off, t):
        Q.append(uq[js].sum()), R.append(ur[js].sum()), G.append(gq[js].sum())
        Pavg.append((pu[js] * h[js]).sum() / h[js].sum())
        none.append(bool((uq[js] == 0).all()))
    Q, R, G, Pavg, none = map(np.array, (Q, R, G, Pavg, none))
    det = np.abs(Q) > 1e-6 * G
    with np.errstate(divide="ignore", invalid="ignore"):
        Pw = np.where(det, R / Q, np.nan)
    b = a.asfreq(t)
    amp = {"p": float(np.abs(pu).max() * np.nanmax(np.append(np.where(det, G / np.where(det, np.abs(Q), 1), 0), 1)))}
    E = P.S(off, off.flat().like(kind="P", cols={"p": Pw}, amp=amp), src)
    P.check_parts(b, E, f"asfreq({t})")
    # totals of the open position and procurement cost
    ar = A.ar * len(h)
    close(mag(b.unsourced.q, "q"), Q, "open volume", atol=1e-9 * G.max())
    close(mag(b.unsourced.r, "r")[det], R[det], "open value", atol=1e-9 * ar)
    cost = a.pnl_cost
    cr = mag(cost.r, "r")
    tot = np.array([cr[js].sum() for _, _, js in model.targets(A.off, t)])
    tot_q = np.array([-A.off.cols["q"][js].sum() for _, _, js in model.targets(A.off, t)])
    known = det | none
    close(mag(b.pnl_cost.r, "r")[known], tot[known], "procurement cost", atol=1e-9 * ar)
    close(mag(b.pnl_cost.q, "q"), tot_q, "procurement volume", atol=1e-9 * G.max())
    P.balance(b, f"asfreq({t})")
    # consistent with resampling each part as a line
    c = a.pnl_cost.asfreq(t)
    close(mag(b.pnl_cost.r, "r")[known], mag(c.r, "r")[known], "cost of resampled state vs resampled cost", atol=1e-9 * ar)
    assert b.offtakevolume == a.offtakevolume.asfreq(t)
    u = a.unsourced.asfreq(t)
    close(mag(u.q, "q"), mag(b.unsourced.q, "q"), "unsourced line", atol=1e-9 * G.max())
    close(mag(u.p, "p")[det], mag(b.unsourcedprice.p, "p")[det], "unsourced price", atol=1e-9 * amp["p"])
    # where the open volume cancels out, its price is undetermined (or, after rounding, one that gives the right value)
    sel = ~known & np.isfinite(mag(b.unsourcedprice.p, "p"))
    close(mag(b.unsourced.r, "r")[sel], R[sel], "open value where open volume cancels out but has a price", atol=1e-6 * ar)
    # where nothing is open, the market price is still a meaningful one
    if none.any():
        got = mag(b.unsourcedprice.p, "p")[none]
        lo = np.array([pu[js].min() for _, _, js in model.targets(A.off, t)])[none]
        hi = np.array([pu[js].max() for _, _, js in model.targets(A.off, t)])[none]
        assert np.isfinite(got).all(), "market price lost in periods without open position"
        tolr = 1e-9 * (np.abs(pu).max() + 1)
        assert ((got >= lo - tolr) & (got <= hi + tolr)).all(), "market price outside of the range of the contained prices"
        ctx.label("nothingopen")
    ctx.nt(bool(det.any()) and "s" in case["a"] and len(A.off.L) > len(Q))
    ctx.label(f"{A.off.freq}>{t}", "det" if det.all() else "partdet", "cancel" if (~known).any() else "")


@st.composite
def up(draw):
    f = draw(st.sampled_from(["h", "D", "D", "MS", "MS", "QS", "YS"]))
    t = draw(st.sampled_from({"h": ["15min"], "D": ["h", "15min"], "MS": ["D", "h"], "QS": ["MS", "D"], "YS": ["QS", "MS", "D"]}[f]))
    spec = draw(gen.ispec(freqs=[f], nmax={"h": 3, "D": 6, "MS": 2 if t == "h" else 6, "QS": 5, "YS": 2}))
    return {"a": draw(P.state(spec)), "t": t}


def check_up(case, ctx):
    A = P.model_of(case["a"])
    a = P.build(case["a"])
    t = case["t"]
    off, src = model.upsample(A.off, t), model.upsample(A.src, t)
    pu = model.upsample(A.pu.flat(), t)
    q = -(off.cols["q"] + src.cols["q"])
    noise = 1e-9 * A.aq
    p = np.where(np.abs(q) > 1e3 * noise, pu.cols["p"], np.nan)
    b = a.asfreq(t)
    P.check_parts(b, P.S(off, pu.like(cols={"p": p}, amp={"p": pu.amp["p"] * 1e3}), src), f"asfreq({t})")
    P.balance(b)
    close([np.nansum(mag(b.unsourced.r, "r"))], [np.nansum(A.r)], "total open value", atol=1e-7 * A.ar * len(A.off.L))
    ctx.nt("s" in case["a"])
    ctx.label(f"{A.off.freq}>{t}")


SUBS = [
    Sub("down", down, check_down, 170, 3000, rule="downsampling of states (flat/nested parts, partial target periods, DST, start-of-day, fully sourced states): volumes, "
        "revenues, procurement cost and volume-weighted unsourced price per full target period. Non-trivial: sourced volume, several periods "
        "per target and a determined price."),
    Sub("up", up, check_up, 70, 1200, rule="upsampling of states: parts resampled as lines, price copied where volume is open. Non-trivial: sourced volume."),
]
