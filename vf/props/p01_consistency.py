from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model
from ..core import Sub, must_raise
from ..cmp import close, mag, same_index

FREQS = tuple(gen.ALLFREQS + gen.ANCHORED[:6])


@st.composite
def cases(draw):
    spec = draw(gen.ispec(freqs=FREQS, long=25))
    if spec["freq"] != "h" and draw(st.integers(0, 7)) == 0:  # clock changes by half an hour
        spec = draw(gen.ispec(freqs=tuple(f for f in FREQS if f != "h"), tzs=("Australia/Lord_Howe",), sods=((0, 0), (6, 0))))
    kind = draw(st.sampled_from(["V", "C", "C", "C", "P", "R"]))
    return {"d": draw(model.leaf(kind, spec)), "x": draw(st.sampled_from(["", "more", "all", "bad"])),
            "at": draw(st.integers(0, 10**6)), "by": draw(st.sampled_from([1.01, 0.5, -1.0, 2.0, 1.25]))}


def subsets(kind):
    if kind == "V":
        return ["w", "q"]
    if kind == "C":
        return ["wp", "qp", "wr", "qr", "pr", "wqp", "wqr", "wpr", "qpr", "wqpr"]
    return [kind.lower()]


def check(case, ctx):
    import portfolyo as pf
    import pandas as pd
    d = case["d"]
    m = model.model(d)
    pfl = pf.PfLine(model.raw(d))
    model.check(pfl, m, "line")
    i = gen.build_index(d["i"])
    h = m.hours
    ctx.label(d["i"]["freq"], d["g"], "dst" if cal.has_dst_change(d["i"]) else "nodst", case["x"])
    ctx.nt(d["k"] in "VC" and len(m.L) > 1)
    # relations between the reported columns
    if d["k"] in "VC":
        close(mag(pfl.q, "q"), mag(pfl.w, "w") * h, "q = w*duration")
    if d["k"] == "C":
        q, p, r = mag(pfl.q, "q"), mag(pfl.p, "p"), mag(pfl.r, "r")
        sel = q != 0
        close(r[sel], (p * q)[sel], "r = p*q")
        assert np.allclose(r[(q == 0) & np.isfinite(p)], 0), "zero volume but revenue"
    # every sufficient subset of the quantities gives the same line
    full = {k: pd.Series(m.cols[k], i) for k in model.COLS[d["k"]]}
    ok = {}
    determined = d["k"] == "C" and np.all(m.cols["q"] != 0) and np.all(np.isfinite(m.cols["p"]))
    nonzero_p = d["k"] == "C" and np.all(m.cols["p"] != 0)
    for sub in subsets(d["k"]):
        if d["k"] == "C":
            if "p" not in sub and not determined:
                continue
            if sub == "pr" and not (nonzero_p and determined):
                continue
            if len(sub) > 2 and case["x"] not in ("more", "all"):
                continue
        other = pf.PfLine({k: full[k] for k in sub})
        model.check(other, m, f"line from {sub}")
        assert other == pfl, f"line from {sub} not equal to line from {d['g']}"
        ok[sub] = 1
    # an unknown price at zero volume: no revenue there, and nothing else changes
    if d["k"] == "C" and np.isfinite(m.cols["p"]).all():
        j, unk = case["at"] % len(m.L), (np.nan, np.inf, -np.inf)[case["at"] // 7 % 3]
        c = {k: v.copy() for k, v in m.cols.items()}
        for k, v in (("w", 0.0), ("q", 0.0), ("r", 0.0), ("p", unk)):
            c[k][j] = v
        sub = ("wp", "qp", "wqp", "wpr", "qpr", "wqpr")[case["at"] % 6]
        other = pf.PfLine({k: pd.Series(c[k], i) for k in sub})
        for k in "wqr":
            close(mag(getattr(other, k), k), c[k], f"{k} of line from {sub} with unknown price {unk} at zero volume")
        rest = np.arange(len(m.L)) != j
        close(mag(other.p, "p")[rest], c["p"][rest], "known prices")
        assert not np.isfinite(mag(other.p, "p")[j]), "unknown price became known"
    # contradicting values are refused
    if case["x"] == "bad" and d["k"] in "VC":
        j = case["at"] % len(m.L)
        sets = {"V": ["wq"], "C": ["wqp", "wqr", "qpr", "wpr", "wqpr"]}[d["k"]]
        sub = sets[case["at"] % len(sets)]
        for k in sub:
            v = m.cols[k].copy()
            if not np.isfinite(v).all() or not all(np.isfinite(m.cols[x]).all() for x in sub):
                continue
            if any(m.cols[x][j] == 0 for x in sub):
                continue  # zero values carry exemptions
            delta = abs(v[j] * (case["by"] - 1))
            c = {x: abs(m.cols[x][j]) for x in m.cols}
            dw = delta / h[j] if k == "q" else delta if k == "w" else np.inf
            dr = {"w": delta * h[j] * c.get("p", np.inf), "q": delta * c.get("p", np.inf), "p": delta * c["q"], "r": delta}[k]
            if min(dw, dr) < 1e-3:
                continue  # below the numerical tolerance
            v[j] = v[j] * case["by"]
            if len(sub) == 3 and sub == "wqp" and k == "p":
                continue  # w,q,p: any price is consistent
            if len(sub) == 3 and sub == "wqr" and k == "r":
                continue
            ctx.label("contradiction")
            data = {x: pd.Series(v if x == k else m.cols[x], i) for x in sub}
            must_raise(lambda: pf.PfLine(data), (ValueError,), f"{sub} with {k} changed at {j}")
        # a revenue without volume, or power without energy
        sub = {"V": ["wq"], "C": ["wqr", "qpr", "wpr", "wqpr"]}[d["k"]][case["at"] % (4 if d["k"] == "C" else 1)]
        if all(np.isfinite(m.cols[x]).all() for x in sub):
            cols = {x: m.cols[x].copy() for x in sub}
            for x in sub:
                cols[x][j] = 0.0 if x in "wq" else 7.5
            if sub == "wqr" or d["k"] == "V":
                cols["w"][j] = 4.0
            ctx.label("contradiction at 0")
            must_raise(lambda: pf.PfLine({x: pd.Series(cols[x], i) for x in sub}), (ValueError,), f"{sub} with {[cols[x][j] for x in sub]} at {j}")


SUBS = [Sub("construct", cases, check, 1500, 40000,
            rule="flat line on a generated index (all frequencies, zones, start-of-day) from a sufficient subset of w/q/p/r; "
                 "compared with reference durations and with the line from every other sufficient subset; 'bad' cases contradict "
                 "one value. Non-trivial: has volumes and at least two periods.")]
