from hypothesis import strategies as st
import datetime as dt
import numpy as np
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise

NM = {"15min": 3, "h": 5, "D": 45, "MS": 20, "QS": 10, "YS": 5}
FREQS = gen.ALLFREQS + ["QS-FEB", "YS-APR"]
TYPES = ["series", "series", "frame", "line", "line", "nested", "state"]


def make(typ, spec, v, name):
    """Object on the index of spec, and a function that returns its values."""
    import pandas as pd
    import portfolyo as pf
    i = gen.build_index(spec, name=name)
    x = gen.expand(v, len(i))
    if typ == "series":
        return pd.Series(x, i, name="s"), lambda o: np.asarray(o, float), x
    if typ == "frame":
        return pd.DataFrame({"a": x, "b": -x}, i), lambda o: np.asarray(o["a"], float), x
    i = i.rename(None)
    if typ == "line":
        return pf.PfLine({"p": pd.Series(x, i)}), lambda o: mag(o.p, "p"), x
    if typ == "nested":
        return pf.PfLine({"A": {"w": pd.Series(x, i)}, "B": {"w": pd.Series(2 * x, i)}}), lambda o: mag(o["B"].w, "w") / 2, x
    return pf.PfState(pf.PfLine({"w": pd.Series(x, i)}), pf.PfLine({"p": pd.Series(x, i)})), lambda o: mag(o.unsourcedprice.p, "p"), x


@st.composite
def strict(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, long=40))
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
    k = max(1, spec["n"] // 2) if draw(st.integers(0, 3)) else spec["n"] + 1
    lim = min(k, 4) if spec["freq"][0] == "Y" else k
    ops = []
    for _ in range(n):
        a = draw(st.integers(-lim, lim))
        s = gen.sub_spec(spec, a, draw(st.integers(max(1, spec["n"] - lim), spec["n"] + min(lim, 4))))
        ops.append([draw(st.sampled_from(TYPES)), s, draw(gen.vals("nz"))])
    return {"ops": ops, "fn": draw(st.sampled_from(["objects", "objects", "frames", "indices"])), "name": draw(st.sampled_from([None, "x"])),
            "flags": draw(st.sampled_from([[], [], ["ignore_freq"], ["ignore_tz"], ["ignore_start_of_day"], ["ignore_freq", "ignore_tz", "ignore_start_of_day"]]))}


def check_strict(case, ctx):
    """Equal frequency, timezone and start-of-day: exactly the common periods, whatever the flags."""
    import portfolyo as pf
    ops, fn = case["ops"], case["fn"]
    L = [cal.bounds(s)[:-1] for _, s, _ in ops]
    common = sorted(set.intersection(*map(set, L)))
    s0 = ops[0][1]
    if fn == "indices":
        idx = [gen.build_index(s, case["name"]) for _, s, _ in ops]
        out = pf.tools.intersect.indices(*idx)
        same_index(out, common, s0["freq"] if common else None, s0["tz"], "indices")
        assert out.name == case["name"], f"name {out.name}"
        ctx.nt(0 < len(common) < max(map(len, L)))
        ctx.label(fn, len(ops), "common" if common else "disjoint", s0["freq"])
        return
    if fn == "frames":
        ops = [[t if t in ("series", "frame") else "series", s, v] for t, s, v in ops]
    objs = [make(t, s, v, case["name"]) for t, s, v in ops]
    kw = {k: True for k in case["flags"]}
    f = (lambda *a: pf.tools.intersect.frames(*a, **kw)) if fn == "frames" else (lambda *a: pf.intersection(*a, **kw))
    ctx.label(fn, len(ops), "common" if common else "disjoint", s0["freq"], "flags" if kw else "noflags", *(t for t, _, _ in ops))
    ctx.nt((0 < len(common) < max(map(len, L))) or not common)
    args = [o for o, _, _ in objs]
    if not common and any(t not in ("series", "frame") for t, _, _ in ops):
        must_raise(lambda: f(*args), (ValueError,), "no common periods")
        return
    out = f(*args)
    assert len(out) == len(objs), f"{fn}: {len(out)} results for {len(objs)} operands"
    for j, (o, (a, get, x), l) in enumerate(zip(out, objs, L)):
        assert type(o) is type(a), f"{fn}: result {j} is {type(o).__name__}, operand is {type(a).__name__}"
        same_index(o.index, common, s0["freq"] if common else None, s0["tz"] if common else Ellipsis, f"{fn} result {j}")
        keep = [k for k, e in enumerate(l) if e in set(common)]
        close(get(o), x[keep], f"{fn} result {j}", rtol=1e-9)


NEST = [["15min", "h"], ["h", "D"], ["15min", "D"], ["h", "MS"], ["D", "MS"], ["D", "MS"], ["D", "QS"], ["MS", "QS"], ["D", "QS-FEB"], ["MS", "QS-FEB"], ["MS", "YS"], ["D", "MS", "QS"],
        ["QS", "YS"], ["QS", "YS-APR"], ["D", "YS-APR"], ["MS", "YS-FEB"], ["QS-FEB", "YS-FEB"], ["MS", "QS", "YS"], ["h", "D", "MS"]]


@st.composite
def flexes(draw):
    diff = draw(st.sampled_from([["freq"], ["freq"], ["freq"], ["tz"], ["sod"], ["freq", "tz"], ["freq", "sod"], ["tz", "sod"], ["freq", "tz", "sod"]]))
    fs = draw(st.permutations(draw(st.sampled_from(NEST)))) if "freq" in diff else [draw(st.sampled_from(FREQS))] * draw(st.sampled_from([2, 2, 3]))
    if "sod" in diff and "freq" in diff:  # only possible for daily or longer
        if draw(st.integers(0, 3)):
            fs = draw(st.permutations(draw(st.sampled_from([f for f in NEST if f[0] not in cal.STEP]))))
    elif "sod" in diff and fs[0] in cal.STEP and draw(st.integers(0, 3)):
        fs = [draw(st.sampled_from([f for f in FREQS if f not in cal.STEP]))] * len(fs)
    n = len(fs)
    longest = max(fs, key=cal.order)
    tzs = [draw(st.sampled_from(gen.TZS)) for _ in fs] if "tz" in diff else [draw(st.sampled_from(gen.TZS))] * n
    sods = [draw(st.sampled_from(gen.SODS)) for _ in fs] if "sod" in diff else [draw(st.sampled_from(gen.SODS))] * n
    # spans in delivery days around a common core of a few of the longest periods
    core0 = cal.floor_date(dt.date(*draw(gen.dates(tzs[0]))), longest)
    unit = {"15min": 1, "h": 1, "D": 1, "MS": 31, "QS": 92, "YS": 366}
    ln = unit[cal.kind(longest)]
    if cal.kind(longest) == "YS" and "D" in fs or "h" in fs:
        reach = ln // 2
    else:
        reach = 3 * ln
    ops = []
    for f, tz, sod in zip(fs, tzs, sods):
        a = core0 + dt.timedelta(days=draw(st.integers(-reach, reach // 2)))
        b = core0 + dt.timedelta(days=draw(st.integers(ln, ln + reach)))
        a = cal.floor_date(a, f)
        if f in cal.STEP or f == "D":
            m = max(1, (b - a).days)
        else:
            m = 1
            while cal.next_start(a, f, m) < b:
                m += 1
        ops.append([draw(st.sampled_from(TYPES[:-1])), {"freq": f, "tz": tz, "sod": list(sod), "start": [a.year, a.month, a.day], "n": m}, draw(gen.vals("nz"))])
    need = [k for k, x in (("freq", fs), ("tz", tzs), ("sod", [tuple(x) for x in sods])) if len(set(x)) > 1]
    give = list(need)
    if need and draw(st.integers(0, 3)) == 0:
        give.remove(draw(st.sampled_from(need)))
    extra = [k for k in ("freq", "tz", "sod") if k not in need and draw(st.booleans())]
    return {"ops": ops, "need": need, "give": sorted(set(give + extra)), "fn": draw(st.sampled_from(["objects", "objects", "frames", "indices"]))}


FLAG = {"freq": "ignore_freq", "tz": "ignore_tz", "sod": "ignore_start_of_day"}


def dates_span(spec, longest):
    """Delivery dates [a, b) of the whole `longest` periods inside the span."""
    a, b = dt.date(*spec["start"]), cal.end_date(spec)
    if longest in cal.STEP:
        return a, b
    x = cal.floor_date(a, longest)
    if x < a:
        x = cal.next_start(x, longest)
    return x, cal.floor_date(b, longest)


def check_flex(case, ctx):
    import portfolyo as pf
    ops, need, give, fn = case["ops"], case["need"], case["give"], case["fn"]
    if fn == "frames":
        ops = [[t if t in ("series", "frame") else "series", s, v] for t, s, v in ops]
    kw = {FLAG[k]: True for k in give}
    longest = max((s["freq"] for _, s, _ in ops), key=cal.order)
    objs = [make(t, s, v, None) for t, s, v in ops]
    if fn == "indices":
        args = [gen.build_index(s) for _, s, _ in ops]
        f = pf.tools.intersect.indices_flex
    else:
        args = [o for o, _, _ in objs]
        f = pf.tools.intersect.frames if fn == "frames" else pf.intersection
    ctx.label(fn, "+".join(need) or "equal", "flags:" + ("+".join(give) or "none"))
    short = any(s["freq"] in cal.STEP for _, s, _ in ops)
    if set(need) - set(give) or ("sod" in need and short):
        must_raise(lambda: f(*args, **kw), (ValueError,), f"operands differ in {need}, ignoring only {give}")
        ctx.nt()
        ctx.label("refused")
        return
    spans = [dates_span(s, longest) for _, s, _ in ops]
    a, b = max(x for x, _ in spans), min(y for _, y in spans)
    if a >= b:
        ctx.label("disjoint")
        if fn != "indices" and any(t not in ("series", "frame") for t, _, _ in ops):
            must_raise(lambda: f(*args, **kw), (ValueError,), "no common periods")
        else:
            out = f(*args, **kw)
            assert len(out) == len(ops) and all(len(o) == 0 for o in out), "no common periods: expected empty results"
        return
    out = f(*args, **kw)
    assert len(out) == len(ops), f"{len(out)} results for {len(ops)} operands"
    for j, (o, (_, s, _), (arg, get, x)) in enumerate(zip(out, ops, objs)):
        l, r = cal.bound(a, s["sod"], s["tz"]), cal.bound(b, s["sod"], s["tz"])
        L = cal.bounds(s)[:-1]
        keep = [k for k, e in enumerate(L) if l <= e < r]
        i = o if fn == "indices" else o.index
        same_index(i, [L[k] for k in keep], s["freq"], s["tz"], f"{fn} result {j} (of frequencies {[y['freq'] for _, y, _ in ops]})")
        if fn != "indices":
            assert type(o) is type(arg), f"result {j} is {type(o).__name__}, operand is {type(arg).__name__}"
            close(get(o), x[keep], f"{fn} result {j}", rtol=1e-9)
    ctx.nt(any(dates_span(s, s["freq"]) != (a, b) for _, s, _ in ops) and bool(need))
    ctx.label("common", *(sorted({"dst" for _, s, _ in ops if s["tz"] and cal.has_dst_change(s)})))


SUBS = [
    Sub("strict", strict, check_strict, 420, 9000, rule="1-4 series, frames, flat/nested lines, states or indices with equal frequency/timezone/start-of-day (superfluous ignore flags included). "
        "Non-trivial: partial overlap or none."),
    Sub("flex", flexes, check_flex, 420, 9000, rule="2-3 operands that differ in frequency, timezone and/or start-of-day, with all, some or superfluous ignore flags; oracle is the wall-clock "
        "span of whole longest periods. Non-trivial: something is cut off, or refused."),
]
