"""P13: base/peak/offpeak decomposition and back, against a per-period reference."""
from hypothesis import strategies as st
import warnings
import numpy as np
import pandas as pd
from .. import cal, gen, model, refpeak
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise

TARGETS = ["MS", "MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"]


@st.composite
def peaks(draw, freq):
    """Peak function that suits the frequency, and that has peak and offpeak hours in each month."""
    if freq == "D":
        return {"l": None, "r": None, "wd": draw(st.sampled_from([[1, 2, 3, 4, 5], [6, 7], [3], [1, 3, 5]]))}
    p = draw(refpeak.peakspec(15 if freq == "15min" else 60))
    if p["l"] is None and p["r"] is None and len(p["wd"]) == 7:
        p["r"] = 720
    return p


@st.composite
def fine(draw):
    """Span with daily-or-shorter periods, containing (mostly) one or more full target periods."""
    f = draw(st.sampled_from(["15min", "h", "h", "h", "h", "D", "D"]))
    t = draw(st.sampled_from(["MS", "MS", "QS"] if f == "15min" else TARGETS))
    tz = draw(st.sampled_from(gen.TZS))
    d = cal.dt.date(*draw(gen.dates(tz)))
    k = cal.kind(t)
    if draw(st.integers(0, 1)):
        d = cal.floor_date(d, t)
        lo, hi = {"MS": (28, 70), "QS": (90, 130), "YS": (365, 400)}[k]
    else:
        lo, hi = {"MS": (50, 100), "QS": (150, 200), "YS": (500, 740)}[k]
    if f == "15min":
        hi = min(hi, lo + 20)
    if draw(st.integers(0, 9)) == 0:
        lo, hi = 1, 20
    spec = {"freq": f, "tz": tz, "sod": list(draw(st.sampled_from(gen.SODS))), "start": list(d.timetuple()[:3]), "n": draw(st.integers(lo, hi))}
    return spec, t, draw(peaks(f))


def parts(m, t, p):
    """[(left, right, positions of peak, positions of offpeak)] per full target period."""
    pk = refpeak.is_peak(p, m.L, m.R, m.tz)
    out = []
    for l, r, js in model.targets(m, t):
        js = np.array(js)
        out.append((l, r, js[pk[js]], js[~pk[js]]))
    return out


# -- .po() of portfolio lines


@st.composite
def pocases(draw):
    spec, t, p = draw(fine())
    d = draw(model.line(spec, depth=1, sign=draw(st.sampled_from(["any", "pos", "any"]))))
    return {"a": d, "t": t, "p": p}


def check_po(case, ctx):
    import portfolyo as pf
    a, m = model.build(case["a"]), model.model(case["a"])
    fn = refpeak.build_peakfn(case["p"])
    t = parts(m, case["t"], case["p"])
    ctx.label(m.kind, m.freq, case["t"], "nested" if m.nested else "flat", "sod" if tuple(m.sod) != (0, 0) else "midnight", f"{min(len(t), 3)} periods")
    df = a.po(fn, case["t"])
    cols = {"V": ["duration", "q", "w"], "P": ["duration", "p"], "R": ["duration", "r"], "C": ["duration", "q", "w", "r", "p"]}[m.kind]
    assert set(df.columns) == set(cols), f"columns {list(df.columns)}, expected {cols}"
    stamps = sorted(set(df.index.get_level_values(0).asi8.tolist())) if len(df) else []
    stamps = gen.epochs(pd.DatetimeIndex(df.index.get_level_values(0)).unique()) if len(df) else []
    assert sorted(stamps) == [x[0] for x in t], f"periods start at {[str(pd.Timestamp(x, unit='s')) for x in stamps]}, expected {[str(pd.Timestamp(x[0], unit='s')) for x in t]} (UTC)"
    if not t:
        return
    got = {}
    lv = [(e, part) for e, part in zip(gen.epochs(pd.DatetimeIndex(df.index.get_level_values(0))), df.index.get_level_values(1))]
    for c in cols:
        for key, v in zip(lv, mag(df[c], c)):
            got[c, key] = v
    h, c = m.hours, m.cols
    for l, r, *jss in t:
        tot = {}
        for part, js in zip(("peak", "offpeak"), jss):
            if not len(js):
                continue
            dur = h[js].sum()
            exp = {"duration": dur}
            if m.kind in "VC":
                exp["q"] = c["q"][js].sum()
                exp["w"] = exp["q"] / dur
            if m.kind in "RC":
                exp["r"] = c["r"][js].sum()
            if m.kind == "P":
                exp["p"] = (c["p"][js] * h[js]).sum() / dur
            if m.kind == "C" and abs(exp["q"]) > 1e-7 * np.abs(c["gq"][js]).sum():
                exp["p"] = exp["r"] / exp["q"]
            for k, v in exp.items():
                g = got[k, (l, part)]
                scale = m.amp.get(k, 0) * len(js) if k in "qr" else m.amp.get(k, 0)
                if k == "p" and m.kind == "C":
                    scale = np.abs(c["r"][js]).sum() / abs(exp["q"])
                close([g], [v], f"{k} of {part} part of period {pd.Timestamp(l, unit='s', tz=m.tz)}", atol=1e-9 * scale)
                if k in ("duration", "q", "r"):
                    tot[k] = tot.get(k, 0) + g
        if all(len(js) for js in jss):
            js = np.concatenate(jss)
            exp = {"duration": h[js].sum(), "q": c["q"][js].sum() if "q" in c else None, "r": c["r"][js].sum() if "r" in c else None}
            for k, v in tot.items():
                close([v], [exp[k]], f"{k}: peak + offpeak", atol=1e-9 * m.amp.get(k, 1) * len(js))
            ctx.nt()


# -- series <-> frame


@st.composite
def s2cases(draw):
    spec, t, p = draw(fine())
    return {"i": spec, "t": t, "p": p, "v": draw(gen.vals("any", maxpool=9)), "u": draw(st.sampled_from([None, "MW", "Eur/MWh", "MWh"])), "sum": draw(st.booleans())}


def check_s2po(case, ctx):
    from portfolyo.tools import peakconvert as pc
    s = gen.series(case["i"], case["v"])
    b = cal.bounds(case["i"])
    m = model.M("P", case["i"]["freq"], case["i"]["tz"], case["i"]["sod"], b[:-1], b[1:], cols={"p": s.to_numpy()})
    if case["u"]:
        s = s.astype(f"pint[{case['u']}]")
    t = parts(m, case["t"], case["p"])
    df = pc.tseries2poframe(s, refpeak.build_peakfn(case["p"]), case["t"], case["sum"])
    ctx.label(case["i"]["freq"], case["t"], case["u"], "summable" if case["sum"] else "averagable", "sod" if tuple(m.sod) != (0, 0) else "midnight")
    assert {"peak", "offpeak"} <= set(df.columns), list(df.columns)
    same_index(df.index, [x[0] for x in t], tz=m.tz, what="frame")
    if not t:
        return
    check_units(df, case["u"])
    v, h = m.cols["p"], m.hours
    for n, part in ((2, "peak"), (3, "offpeak")):
        exp = [np.nan if not len(x[n]) else v[x[n]].sum() if case["sum"] else (v[x[n]] * h[x[n]]).sum() / h[x[n]].sum() for x in t]
        sel = np.array([len(x[n]) > 0 for x in t])
        close(mag(df[part])[sel], np.array(exp)[sel], part, atol=1e-9 * m.amp["p"] * (len(v) if case["sum"] else 1))
    ctx.nt()


def check_units(df, u):
    import portfolyo as pf
    for c in df.columns:
        if u is None:
            assert not hasattr(df[c], "pint"), f"values without unit became {df[c].dtype}"
        else:
            assert hasattr(df[c], "pint") and df[c].pint.units == pf.ureg.Unit(u), f"unit {u} became {df[c].dtype}"


@st.composite
def framecases(draw, to=("15min", "h", "h", "h", "D")):
    to = draw(st.sampled_from(to))
    f = draw(st.sampled_from(["MS", "MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"]))
    nm = {"MS": 5, "QS": 3, "YS": 2}
    if to == "15min":
        nm = {"MS": 2, "QS": 1, "YS": 1}
    spec = draw(gen.ispec((f,), nmax=nm))
    have = draw(st.sampled_from([["peak", "offpeak"], ["offpeak", "peak"], ["base", "peak"], ["offpeak", "base"], ["peak", "base", "offpeak"]]))
    return {"i": spec, "to": to, "p": draw(peaks(to)), "v": [draw(gen.vals("any", maxpool=9)), draw(gen.vals("any", maxpool=9))],
            "u": draw(st.sampled_from([None, "MW", "Eur/MWh", "MWh"])), "sum": draw(st.booleans()), "have": have, "t": draw(st.sampled_from(["MS", "QS", "YS"]))}


def frame(case):
    """Frame with the columns the case has, and the (consistent) reference values."""
    spec = case["i"]
    i = gen.build_index(spec)
    b = cal.bounds(spec)
    tz = spec["tz"]
    H = np.diff(np.array(b)) / 3600
    if case["p"]["l"] is None and case["p"]["r"] is None:  # daily function: delivery days count
        P = []
        for l, r in zip(b[:-1], b[1:]):
            x, h = l, 0
            while x < r:
                y = cal.period_of(x, "D", tz, spec["sod"])[1]
                h += (y - x) / 3600 * (cal.wall(x, tz).isoweekday() in case["p"]["wd"])
                x = y
            P.append(h)
        P = np.array(P)
    else:
        P = np.array([refpeak.peak_seconds(case["p"], l, r, tz) / 3600 for l, r in zip(b[:-1], b[1:])])
    ref = {"peak": gen.expand(case["v"][0], len(i)), "offpeak": gen.expand(case["v"][1], len(i))}
    ref["base"] = ref["peak"] + ref["offpeak"] if case["sum"] else (ref["peak"] * P + ref["offpeak"] * (H - P)) / H
    df = pd.DataFrame({c: ref[c] for c in case["have"]}, i)
    if case["u"]:
        df = df.astype(f"pint[{case['u']}]")
    return df, ref, P, H


def amp(ref):
    return max(float(np.abs(v).max()) for v in ref.values())


def flabels(case, ctx):
    ctx.label(case["i"]["freq"], case["to"], case["u"], "summable" if case["sum"] else "averagable", "+".join(sorted(case["have"])))


def check_complete(case, ctx):
    from portfolyo.tools import peakconvert as pc
    df, ref, P, H = frame(case)
    before = df.copy()
    out = pc.complete_bpoframe(df, refpeak.build_peakfn(case["p"]), case["sum"])
    flabels(case, ctx)
    assert set(out.columns) == {"base", "peak", "offpeak"}, list(out.columns)
    same_index(out.index, gen.epochs(df.index), case["i"]["freq"], case["i"]["tz"], "frame")
    check_units(out, case["u"])
    f = float(max(1, (H / P).max(), (H / (H - P)).max()))
    for c in ref:
        close(mag(out[c]), ref[c], c, atol=1e-9 * amp(ref) * f)
    assert list(df.columns) == list(before.columns), "input was changed"
    ctx.nt(len(case["have"]) == 2)


def check_expand(case, ctx):
    from portfolyo.tools import peakconvert as pc
    df, ref, P, H = frame(case)
    fn = refpeak.build_peakfn(case["p"])
    if case["to"] != "D" and case["p"]["l"] is None and case["p"]["r"] is None and case["i"]["sod"] != [0, 0] and len(case["have"]) == 2 and "base" in case["have"]:
        return  # durations of a daily function count delivery days, not hours
    flabels(case, ctx)
    s = pc.poframe2tseries(df, fn, case["to"], case["sum"])
    m = model.M("P", case["i"]["freq"], case["i"]["tz"], case["i"]["sod"], cal.bounds(case["i"])[:-1], cal.bounds(case["i"])[1:], cols={"p": np.arange(len(df)) * 1.0})
    up = model.upsample(m, case["to"])
    same_index(s.index, up.L, case["to"], m.tz, "series")
    pos = up.cols["p"].astype(int)
    pk = refpeak.is_peak(case["p"], up.L, up.R, m.tz)
    exp = np.where(pk, ref["peak"][pos], ref["offpeak"][pos])
    h = up.hours
    if case["sum"]:
        T = np.zeros((2, len(df)))
        np.add.at(T, (pk.astype(int), pos), h)
        exp = exp * h / T[pk.astype(int), pos]
    if case["u"]:
        check_units(pd.DataFrame({"s": s}), case["u"])
    f = float(max(1, (H / P).max(), (H / (H - P)).max()))
    close(mag(s), exp, "expanded", atol=1e-9 * amp(ref) * f)
    back = pc.tseries2poframe(s, fn, case["i"]["freq"], case["sum"])
    same_index(back.index, gen.epochs(df.index), tz=m.tz, what="decomposed again")
    for c in ("peak", "offpeak"):
        close(mag(back[c]), ref[c], f"{c} decomposed again", atol=1e-8 * amp(ref) * f)
    ctx.nt(bool(pk.any() and not pk.all()))


def check_po2po(case, ctx):
    """Changing the frequency of peak/offpeak values: the same as aggregating the expanded series."""
    from portfolyo.tools import peakconvert as pc
    df, ref, P, H = frame(case)
    fn = refpeak.build_peakfn(case["p"])
    flabels(case, ctx)
    m = model.M("P", case["i"]["freq"], case["i"]["tz"], case["i"]["sod"], cal.bounds(case["i"])[:-1], cal.bounds(case["i"])[1:], cols={"p": np.arange(len(df)) * 1.0})
    if cal.order(case["t"]) < cal.order(m.freq) or (case["t"] in ("QS", "YS") and "-" in m.freq):
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = pc.poframe2poframe(df, fn, case["t"], case["sum"])
    t = model.targets(m, case["t"])
    same_index(out.index, [x[0] for x in t], tz=m.tz, what="frame")
    if not t:
        return
    for c, d in (("peak", P), ("offpeak", H - P)):
        exp = [ref[c][js].sum() if case["sum"] else (ref[c][js] * d[js]).sum() / d[js].sum() for _, _, js in t]
        close(mag(out[c]), exp, c, atol=1e-8 * amp(ref) * len(df))
    ctx.nt(len(df) > len(t))


@st.composite
def convcases(draw):
    """Most cases: months or quarters of one or more full target periods."""
    c = draw(framecases(("h",)))
    if c["p"]["l"] is None and c["p"]["r"] is None:
        c["i"]["sod"] = [0, 0]
    if draw(st.integers(0, 4)):
        f, t = draw(st.sampled_from([("MS", "QS"), ("MS", "YS"), ("MS", "QS-FEB"), ("QS", "YS"), ("QS-FEB", "YS-MAY")]))
        d = cal.floor_date(cal.dt.date(*c["i"]["start"]), t)
        n = {"MSQS": 3, "MSYS": 12, "QSYS": 4}[f[:2] + t[:2]]
        c["i"].update(freq=f, start=list(cal.next_start(d, f, draw(st.integers(-1, 1))).timetuple()[:3]), n=n + draw(st.integers(0, 3)))
        c["t"] = t
    return c


SUBS = [
    Sub("po", pocases, check_po, 260, rule=".po() of flat and nested lines of each kind; non-trivial if a full target period with peak and offpeak part exists"),
    Sub("split", s2cases, check_s2po, 260, rule="tseries2poframe of float and unit-aware series; non-trivial if a full target period exists"),
    Sub("complete", framecases, check_complete, 350, rule="complete_bpoframe from any two of base, peak, offpeak; non-trivial if one had to be calculated"),
    Sub("expand", framecases, check_expand, 300, rule="poframe2tseries compared per period, and decomposed again; non-trivial if both peak and offpeak periods exist"),
    Sub("convert", convcases, check_po2po, 120, rule="poframe2poframe to same or longer frequency; non-trivial if several periods are aggregated"),
]
