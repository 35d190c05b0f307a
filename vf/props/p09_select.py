from hypothesis import strategies as st
import datetime as dt
import numpy as np
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from .p03_nested import stamp, cuts

NM = {"15min": 3, "h": 5, "D": 70, "MS": 30, "QS": 14, "YS": 6}
FREQS = gen.ALLFREQS + ["QS-FEB", "YS-APR"]


FRAC = list(range(0, 101, 5)) + [1, 2, 98, 99]  # percentage of the object's span


@st.composite
def bound(draw, late):
    """Where a bound lies: relative to the boundaries of the object, or as text."""
    f = st.sampled_from([x for x in FRAC if x >= 40] if late else [x for x in FRAC if x <= 60])
    return draw(st.one_of(
        st.none(),
        st.tuples(st.just("cut"), f, st.just(0)),  # boundary of whole days
        st.tuples(st.just("cut"), f, st.just(0)),
        st.tuples(st.just("pos"), f, st.sampled_from([0, 1, -1, 1800, -600])),  # some period start, and seconds beside it
        st.tuples(st.just("out"), st.sampled_from([-1, 1]), st.integers(0, 40)),  # days outside
        st.tuples(st.just("txt"), f, st.sampled_from(["Y", "M", "D", "H", "M"])),
    ))


@st.composite
def slices(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, nmin=2, long=40))
    what = draw(st.sampled_from(["line", "line", "state"]))
    d = draw(P.state(spec)) if what == "state" else draw(model.line(spec, depth=2))
    a, b, how = draw(bound(False)), draw(bound(True)), draw(st.sampled_from(["slice", "slice", "loc"]))
    if how == "loc" and a and b and (a[0] == "txt") != (b[0] == "txt"):
        a, b = [(x if x[0] == "txt" else ("txt", draw(st.sampled_from(FRAC)), draw(st.sampled_from("YMDH")))) for x in (a, b)]  # pandas refuses to mix text and stamps
    return {"what": what, "d": d, "a": a, "b": b, "how": how}


def place(b, m):
    """-> (value for the user, epoch seconds of it as start, epoch seconds of it as inclusive end label)"""
    import pandas as pd
    if b is None:
        return None, None, None
    k, j, x = b
    if k == "cut":
        c = cuts(m)
        e = (m.L + [m.R[-1]])[c[round(j / 100 * (len(c) - 1))]]
    elif k == "pos":
        e = m.L[j * (len(m.L) - 1) // 100] + x
    elif k == "out":
        e = m.L[0] - x * 86400 if j < 0 else m.R[-1] + x * 86400
    else:
        c = cuts(m)
        w = cal.wall((m.L + [m.R[-1]])[c[round(j / 100 * (len(c) - 1))]], m.tz)
        w = {"Y": dt.datetime(w.year, 1, 1), "M": dt.datetime(w.year, w.month, 1), "D": dt.datetime(w.year, w.month, w.day), "H": w}[x]
        nxt = {"Y": dt.datetime(w.year + 1, 1, 1), "M": dt.datetime(*((w.year, w.month + 1) if w.month < 12 else (w.year + 1, 1)), 1),
               "D": w + dt.timedelta(days=1), "H": w}[x]
        txt = w.strftime({"Y": "%Y", "M": "%Y-%m", "D": "%Y-%m-%d", "H": "%Y-%m-%d %H:%M:%S"}[x])
        e = cal.epoch(w, m.tz)
        return txt, e, (cal.epoch(nxt, m.tz) - 1 if x != "H" else e)
    return stamp(e, m), e, e


def wholedays(m, keep):
    """Selected periods are a gapless span of whole days."""
    if not keep:
        return False
    if m.freq not in cal.STEP:
        return True
    a, b = cal.wall(m.L[keep[0]], m.tz), cal.wall(m.R[keep[-1]], m.tz)
    return a.time() == b.time() and a.minute == 0


def pick(M, what, keep):
    if what == "line":
        return M.pick(keep)
    return P.S(M.off.pick(keep), M.pu.pick(keep), M.src.pick(keep))


def compare(out, M, what, w):
    model.check(out, M, w, order=True) if what == "line" else P.check_parts(out, M, w)


def check_slices(case, ctx):
    what, how = case["what"], case["how"]
    M = P.model_of(case["d"]) if what == "state" else model.model(case["d"])
    obj = P.build(case["d"]) if what == "state" else model.build(case["d"])
    m = M.off if what == "state" else M
    (a, ea, _), (b, eb, eb_incl) = place(case["a"], m), place(case["b"], m)
    keep = [j for j, l in enumerate(m.L) if (ea is None or l >= ea) and (eb is None or (l < eb if how == "slice" else l <= eb_incl))]
    f = (lambda: obj.slice[a:b]) if how == "slice" else (lambda: obj.loc[a:b])
    w = f"{how}[{a}:{b}]"
    if how == "loc" and ea is not None and eb is not None and ea > eb_incl:
        keep = []
    if not wholedays(m, keep):
        must_raise(f, (ValueError,), f"{w}: {'nothing' if not keep else 'no whole days'} selected")
        ctx.label("refused-empty" if not keep else "refused-days", how)
        ctx.nt(bool(keep))
        return
    compare(f(), pick(M, what, keep), what, w)
    ctx.nt(len(keep) < len(m.L))
    ctx.label(how, what, m.freq, "part" if len(keep) < len(m.L) else "all", "a:" + (case["a"] or ["open"])[0], "b:" + (case["b"] or ["open"])[0],
              "nested" if m.nested else "flat")


@st.composite
def labels(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, nmin=2, long=40))
    return {"d": draw(model.line(spec, depth=1)), "how": draw(st.sampled_from(["index", "index", "gap", "one", "twice", "reverse", "outside"])),
            "a": draw(st.integers(0, 60)), "b": draw(st.integers(1, 60)), "g": draw(st.integers(1, 100))}


def check_labels(case, ctx):
    """Selection with an index as label; a selection with gaps, disorder or repetition is refused."""
    import pandas as pd
    m = model.model(case["d"])
    pfl = model.build(case["d"])
    c = cuts(m)
    a = min(case["a"], len(c) - 2)
    b = max(a + 1, min(len(c) - 1, a + case["b"]))
    keep = list(range(c[a], c[b]))
    idx = pfl.index
    how = case["how"]
    n = len(keep)
    if how == "index":
        out = pfl.loc[idx[keep[0]:keep[-1] + 1]]
        model.check(out, m.pick(keep), "loc[index]", order=True)
        ctx.nt(n < len(m.L))
    elif how == "gap":
        g = case["g"] % n
        if n < 3 or g in (0, n - 1):
            return
        sel = idx[keep[0]:keep[-1] + 1].delete(g)
        must_raise(lambda: pfl.loc[sel], (ValueError,), "loc with a gap")
        ctx.nt()
    elif how == "one":
        if m.freq in cal.STEP:
            return
        must_raise(lambda: pfl.loc[idx[keep[0]]], (Exception,), "loc with single label")
        ctx.nt()
    elif how in ("twice", "reverse"):
        if n < 2:
            return
        sel = idx[keep[0]:keep[-1] + 1]
        sel = sel.append(sel[-1:]) if how == "twice" else sel[::-1]
        must_raise(lambda: pfl.loc[sel], (ValueError,), f"loc {how}")
        ctx.nt()
    else:
        sel = idx.append(pd.DatetimeIndex([pfl.end]))
        must_raise(lambda: pfl.loc[sel], (KeyError, ValueError), "loc beyond the data")
        ctx.nt()
    ctx.label(how, m.freq)


@st.composite
def reindexes(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM))
    big = spec["freq"] in ("15min", "h", "D")
    d = 6 if spec["freq"] in ("15min", "h") else 40 if big else 2 if spec["freq"][0] == "Y" else 9
    n = spec["n"]
    a = draw(st.one_of(st.integers(-d, -1), st.integers(0, n - 1), st.integers(0, n - 1), st.integers(n, n + 1)))
    b = draw(st.one_of(st.integers(1, max(1, n - a)), st.integers(max(1, n - a), max(1, n - a + d)), st.just(max(1, n - a))))
    new = gen.sub_spec(spec, a, b)
    bad = draw(st.sampled_from([None] * 6 + ["freq", "tz", "sod"]))
    if bad == "freq":
        f = draw(st.sampled_from([x for x in gen.ALLFREQS if x != spec["freq"]]))
        s = cal.floor_date(dt.date(*spec["start"]), f)
        new = {**spec, "freq": f, "start": [s.year, s.month, s.day], "n": 2}
    elif bad == "tz":
        new = {**new, "tz": draw(st.sampled_from([t for t in ["Europe/Berlin", None, "Asia/Kolkata", "UTC"] if t != spec["tz"]]))}
    elif bad == "sod":
        new = {**new, "sod": draw(st.sampled_from([s for s in ([0, 0], [6, 0], [5, 0], [22, 0]) if s != list(spec["sod"])]))}
    d = draw(model.line(spec, depth=2))
    if "ch" not in d and d["k"] != "C" and draw(st.integers(0, 2)) == 0:  # missing values stay missing
        d["v"][0]["pool"].append(float("nan"))
    return {"d": d, "new": new, "bad": bad}


def check_reindexes(case, ctx):
    m = model.model(case["d"])
    pfl = model.build(case["d"])
    i = gen.build_index(case["new"])
    if case["bad"]:
        must_raise(lambda: pfl.reindex(i), (Exception,), f"reindex to index with other {case['bad']}")
        ctx.label("bad " + case["bad"])
        ctx.nt()
        return
    b = cal.bounds(case["new"])
    e = model.reindex(m, b[:-1], b[1:])
    out = pfl.reindex(i)
    model.check(out, e, "reindex", order=True)
    # physical consistency of the padded line and back again
    h = (np.array(b[1:]) - np.array(b[:-1])) / 3600
    if m.kind in "VC":
        close(mag(out.w, "w") * h, mag(out.q, "q"), "w*h=q after reindex", atol=1e-9 * m.amp["q"])
    common = set(m.L) & set(b[:-1])
    ctx.nt(0 < len(common) and len(common) < max(len(m.L), len(b) - 1))
    ctx.label(m.kind, "nested" if m.nested else "flat", "disjoint" if not common else "same" if len(common) == len(m.L) == len(b) - 1 else
              "inside" if len(common) == len(b) - 1 else "around" if len(common) == len(m.L) else "shifted")
    if len(common) == len(m.L):
        model.check(out.reindex(gen.build_index(spec_of(case["d"]))), model.undetermined(m), "reindex and back")


def spec_of(d):
    return model.leaves(d)[0]["i"]


SUBS = [
    Sub("slice", slices, check_slices, 800, 16000, rule="slice[a:b] and loc[a:b] of lines and states with bounds on, beside and between period boundaries, outside, open, "
        "and as text of year/month/day/second resolution. Non-trivial: a strict part is selected, or refused because it has no whole days."),
    Sub("labels", labels, check_labels, 240, 4000, rule="loc with an index: contiguous, with gap, repeated, reversed, single, beyond the data. Non-trivial: strict part or refusal."),
    Sub("reindex", reindexes, check_reindexes, 400, 8000, rule="reindex to spans that extend, shift, shrink or miss the original, or differ in frequency, timezone or "
        "start-of-day (refused). Non-trivial: partial overlap, or refusal."),
]
