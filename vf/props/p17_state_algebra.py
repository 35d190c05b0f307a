from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from .p03_nested import pindex

NM = {"15min": 2, "h": 3, "D": 30, "MS": 14, "QS": 8, "YS": 4}
FR = ["h", "D", "D", "MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"]


def combine(a: P.S, b: P.S) -> P.S:
    off, src = model.add(a.off, b.off), model.add(a.src, b.src)
    L = off.L
    ra, rb = restrict(a, L), restrict(b, L)
    qa, qb, pa, pb = ra.q, rb.q, ra.pu.cols["p"], rb.pu.cols["p"]
    q = qa + qb
    with np.errstate(divide="ignore", invalid="ignore"):
        p = (np.where(qa == 0, 0, qa * pa) + np.where(qb == 0, 0, qb * pb)) / q
    bad = np.abs(q) <= 1e-7 * (np.abs(qa) + np.abs(qb))
    # positions that cancel: the common price if identical, else not determined. Only one of them non-zero: its price
    one = np.where((qa != 0) | (qb == 0), pa, pb)
    p = np.where(bad, np.where(pa == pb, pa, np.nan), p)
    p = np.where(((qa != 0) & np.isnan(pa)) | ((qb != 0) & np.isnan(pb)), np.nan, p)
    amp = {"p": np.nanmax(np.abs(np.concatenate([pa, pb, [0]]))) * amplify(q, qa, qb)}
    # positions that are only rounding noise of larger terms are not determined either
    noise = np.abs(q) < 1e-9 * (ra.aq + rb.aq)
    p = np.where(noise & (pa != pb), np.nan, p)
    pu = M_p(off, p, amp)
    return P.S(off, pu, src)


def amplify(q, qa, qb):
    with np.errstate(divide="ignore", invalid="ignore"):
        x = (np.abs(qa) + np.abs(qb)) / np.abs(q)
    x = x[np.isfinite(x)]
    return float(min(1e6, x.max())) if x.size else 1.0


def M_p(off, p, amp):
    return model.M("P", off.freq, off.tz, off.sod, off.L, off.R, cols={"p": p}, amp=amp)


def restrict(s: P.S, L):
    return P.S(s.off.restrict(L), s.pu.restrict(L), s.src.restrict(L))


def neg(s):
    return P.S(model.scale(s.off, -1), s.pu, model.scale(s.src, -1))


@st.composite
def pairs(draw):
    spec = draw(gen.ispec(freqs=FR, nmax=NM, long=30))
    k = draw(st.sampled_from([0, 0, 0, 1, -1, 2]))
    spec2 = gen.sub_spec(spec, k, max(1, spec["n"] + draw(st.sampled_from([0, 0, 1, -1])))) if k else spec
    a, b = draw(P.state(spec)), draw(P.state(spec2))
    how = draw(st.sampled_from(["", "", "", "samep", "cancel", "zero", "missing"]))
    if how == "samep" and spec == spec2:
        b["p"] = a["p"]
    elif how == "missing":  # market price not known in some periods
        for x in (a, b) if draw(st.booleans()) else (b,):
            d = x["p"]
            while "ch" in d:
                d = d["ch"][0][1]
            d["v"][0]["pool"].insert(draw(st.integers(0, len(d["v"][0]["pool"]))), float("nan"))
    elif how == "zero":  # no open position anywhere in b
        b = {"o": {"k": "V", "i": spec2, "g": "w", "v": [{"pool": [0.0], "a": 1, "b": 0, "e": 0}]}, "p": b["p"]}
    return {"a": a, "b": b, "how": how, "k": k}


def check_pairs(case, ctx):
    A, B = P.model_of(case["a"]), P.model_of(case["b"])
    a, b = P.build(case["a"]), P.build(case["b"])
    L = model.common(A.off, B.off)
    if case["how"] == "cancel":
        b, B = -a, neg(A)
        L = A.off.L
    if not L:
        must_raise(lambda: a + b, (Exception,), "states without common periods")
        return
    E = combine(A, B)
    c = a + b
    P.check_parts(c, E, "a+b")
    P.balance(c, "a+b")
    # a market price that is not known for an open volume is not invented
    sa, sb = restrict(A, L), restrict(B, L)
    lost = ((sa.q != 0) & np.isnan(sa.pu.cols["p"])) | ((sb.q != 0) & np.isnan(sb.pu.cols["p"]))
    lost &= np.abs(sa.q + sb.q) > 1e-6 * (np.abs(sa.q) + np.abs(sb.q))
    assert np.isnan(mag(c.unsourcedprice.p, "p")[lost]).all(), "open volume without known market price got a price in the sum"
    # value of the open position adds up wherever it can be expressed as a volume at a price
    ra, rb = restrict(A, L), restrict(B, L)
    ok = np.isfinite(E.pu.cols["p"]) & (np.abs(ra.q + rb.q) > 1e-6 * (np.abs(ra.q) + np.abs(rb.q)))
    close(mag(c.unsourced.r, "r")[ok], (np.where(ra.q == 0, 0, ra.r) + np.where(rb.q == 0, 0, rb.r))[ok], "open value of a+b", atol=1e-8 * (ra.ar + rb.ar))
    d = b + a
    P.check_parts(d, combine(B, A), "b+a")
    close(mag(d.unsourced.q, "q"), mag(c.unsourced.q, "q"), "a+b vs b+a", atol=1e-9 * (A.aq + B.aq))
    e = a - b
    P.check_parts(e, combine(A, neg(B)), "a-b")
    f = a + (-b)
    P.check_parts(f, combine(A, neg(B)), "a+(-b)")
    ctx.nt(len(L) > 0 and bool((ra.q != 0).any() and (rb.q != 0).any()))
    ctx.label("same" if L == A.off.L == B.off.L else "partial", case["how"] or "plain")


@st.composite
def scaled(draw):
    spec = draw(gen.ispec(freqs=FR, nmax=NM, long=30))
    return {"a": draw(P.state(spec)), "f": draw(st.sampled_from([2, 3, -1, 0.5, -0.25, 10, 1, 0])),
            "v": draw(gen.vals("nz")), "as": draw(st.sampled_from(["num", "q", "series", "useries"]))}


def check_scaled(case, ctx):
    import pandas as pd
    import portfolyo as pf
    A = P.model_of(case["a"])
    a = P.build(case["a"])
    m = A.off
    if case["as"] == "num":
        f = x = case["f"]
    elif case["as"] == "q":
        f, x = case["f"], pf.Q_(float(case["f"]), "")
    else:
        f = gen.expand(case["v"], len(m.L))
        x = pd.Series(f, pindex(m))
        if case["as"] == "useries":
            x = x.astype("pint[dimensionless]")
    E = P.S(model.scale(A.off, f), A.pu, model.scale(A.src, f))
    for n, y in (("a*f", a * x), ("f*a", x * a if case["as"] == "num" else a * x)):
        P.check_parts(y, E, n)
        P.balance(y, n)
    if np.all(np.asarray(f) != 0):
        g = 1 / np.asarray(f, float)
        y = a / x
        P.check_parts(y, P.S(model.scale(A.off, g), A.pu, model.scale(A.src, g)), "a/f")
        P.check_parts((a * x) / x, A, "(a*f)/f")
    P.check_parts(-a, neg(A), "-a")
    two = a + a
    P.check_parts(two, P.S(model.scale(A.off, 2), combine(A, A).pu, model.scale(A.src, 2)), "a+a")
    z = a - a
    P.check_parts(z, combine(A, neg(A)), "a-a")
    for none in (a + None, a - None):
        P.check_parts(none, A, "a+None")
    ctx.nt("s" in case["a"] and not np.all(np.asarray(f) == 1))
    ctx.label(case["as"])


@st.composite
def parts(draw):
    spec = draw(gen.ispec(freqs=FR, nmax=NM, nmin=2))
    a = draw(P.state(spec, wide=False))
    return {"a": a, "o": draw(model.line(spec if draw(st.integers(0, 2)) else gen.sub_spec(spec, 1, spec["n"] - 1), "V", depth=1)),
            "p": draw(model.line(spec if draw(st.booleans()) else gen.sub_spec(spec, -1, spec["n"] + 2), "P", depth=1)),
            "s": draw(model.line(spec if draw(st.booleans()) else gen.sub_spec(spec, -1, spec["n"] + 2), "C", depth=1)),
            "asdict": draw(st.booleans())}


def check_parts(case, ctx):
    A = P.model_of(case["a"])
    a = P.build(case["a"])
    mk = model.raw if case["asdict"] else model.build
    o, p, s = (model.model(case[k]) for k in "ops")
    L = o.L
    b = a.set_offtakevolume(mk(case["o"]))
    P.check_parts(b, P.S(o, A.pu.restrict(L), A.src.restrict(L)), "set_offtakevolume")
    b = a.set_unsourcedprice(mk(case["p"]))
    P.check_parts(b, P.S(A.off, p.restrict(A.off.L), A.src), "set_unsourcedprice")
    P.balance(b)
    b = a.set_sourced(mk(case["s"]))
    P.check_parts(b, P.S(A.off, A.pu, s.restrict(A.off.L)), "set_sourced")
    P.balance(b)
    b = a.add_sourced(mk(case["s"]))
    src = model.add(A.src, s)
    P.check_parts(b, P.S(A.off, A.pu, src), "add_sourced")
    P.balance(b)
    P.check_parts(a, A, "original state afterwards")
    ctx.nt("s" in case["a"])
    ctx.label("nested" if "ch" in case["s"] else "flat", "wide" if p.L != A.off.L else "same")


@st.composite
def bad(draw):
    spec = draw(gen.ispec(freqs=["D", "MS", "QS", "YS"], nmax=NM, nmin=2))
    return {"a": draw(P.state(spec, wide=False)), "k": draw(st.sampled_from(["num", "line", "freq", "tz", "sod", "mulstate", "mulline", "divline", "str",
                                                                             "mulprice", "subnum"])),
            "l": draw(model.line(spec, depth=0)), "x": draw(st.sampled_from([1, 2.5, -3]))}


def respec(d, **kw):
    if "ch" in d:
        return {"k": d["k"], "ch": [[n, respec(c, **kw)] for n, c in d["ch"]]}
    return {**d, "i": {**d["i"], **kw}}


def check_bad(case, ctx):
    import portfolyo as pf
    a = P.build(case["a"])
    k, x = case["k"], case["x"]
    ctx.nt()
    ctx.label(k)
    E = (NotImplementedError, TypeError, ValueError, AssertionError)
    i = gen.epochs(a.index)
    tz = None if a.index.tz is None else str(a.index.tz)
    if k == "num":
        must_raise(lambda: a + x, E, "state + number")
    elif k == "subnum":
        must_raise(lambda: a - x, E, "state - number")
    elif k == "line":
        must_raise(lambda: a + model.build(case["l"]), E, "state + line")
    elif k == "mulline":
        must_raise(lambda: a * model.build(case["l"]), E, "state * line")
    elif k == "divline":
        must_raise(lambda: a / model.build(case["l"]), E, "state / line")
    elif k == "mulstate":
        must_raise(lambda: a * a, E, "state * state")
    elif k == "str":
        must_raise(lambda: a + "x", E, "state + str")
        must_raise(lambda: a * "x", E, "state * str")
    elif k == "mulprice":
        must_raise(lambda: a * pf.Q_(3.0, "Eur/MWh"), E, "state * price")
    else:
        freq = {"D": "MS", "MS": "QS", "QS": "YS", "YS": "MS"}[a.index.freqstr.split("-")[0]]
        kw = {"freq": {"freq": freq, "start": case["a"]["o"]["i"]["start"][:1] + [1, 1] if "i" in case["a"]["o"] else [2021, 1, 1]},
              "tz": {"tz": None if tz else "Europe/Berlin"},
              "sod": {"sod": [3, 0]}}[k]
        b = P.build({n: respec(d, **kw) for n, d in case["a"].items()})
        must_raise(lambda: a + b, E, f"state + state with other {k}")
        must_raise(lambda: a - b, E, f"state - state with other {k}")
        must_raise(lambda: a / b, E, f"state / state with other {k}")


SUBS = [
    Sub("sum", pairs, check_pairs, 100, 4000, rule="sum and difference of two states (same or partly overlapping delivery periods, nested or flat parts, equal prices, "
        "cancelling or no open position) against the reference books. Non-trivial: both have an open position."),
    Sub("scale", scaled, check_scaled, 64, 3000, rule="scaling by number, quantity, series; negation; a+a, a-a. Non-trivial: sourced volume and factor not one."),
    Sub("replace", parts, check_parts, 64, 3000, rule="set_offtakevolume/set_unsourcedprice/set_sourced/add_sourced. Non-trivial: sourced volume present."),
    Sub("refuse", bad, check_bad, 72, 1000, rule="meaningless combinations are refused. All non-trivial."),
]
