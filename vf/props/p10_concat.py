from hypothesis import strategies as st
import datetime as dt
from .. import cal, gen, model, pfs as P
from ..core import Sub, must_raise
from .p03_nested import stamp, cuts
from .p09_select import NM, FREQS


@st.composite
def splits(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, nmin=2, long=40))
    what = draw(st.sampled_from(["line", "line", "state"]))
    d = draw(P.state(spec)) if what == "state" else draw(model.line(spec, depth=2))
    n = draw(st.integers(1, 4))
    return {"what": what, "d": d, "at": draw(st.lists(st.sampled_from(range(1, 100)), min_size=n, max_size=n)), "perm": draw(st.permutations(range(n + 1))),
            "twice": draw(st.booleans()), "arg": draw(st.sampled_from(["list", "tuple"]))}


def pieces(obj, m, at):
    """The parts of obj, split at the whole-day boundaries nearest to the given percentages."""
    c = cuts(m)
    pos = sorted({max(1, min(len(c) - 2, round(a / 100 * (len(c) - 1)))) for a in at}) if len(c) > 2 else []
    e = [0] + [c[p] for p in pos] + [len(m.L)]
    b = m.L + [m.R[-1]]
    return [obj.slice[stamp(b[x], m):stamp(b[y], m)] for x, y in zip(e, e[1:])], e


def check_splits(case, ctx):
    import portfolyo as pf
    what = case["what"]
    M = P.model_of(case["d"]) if what == "state" else model.model(case["d"])
    obj = P.build(case["d"]) if what == "state" else model.build(case["d"])
    m = M.off if what == "state" else M
    parts, e = pieces(obj, m, case["at"])
    if len(parts) < 2:
        return
    order = [j for j in case["perm"] if j < len(parts)]
    shuffled = [parts[j] for j in order]
    out = pf.concat(tuple(shuffled) if case["arg"] == "tuple" else shuffled)
    if what == "state":
        P.check_parts(out, M, "concat")
    else:
        model.check(out, M, "concat", order=False)
        assert out == obj, "concatenation of the parts does not equal the original"
    if case["twice"] and len(parts) > 2:  # step by step gives the same
        acc = parts[0]
        for p in parts[1:]:
            acc = pf.concat([p, acc])
        (P.check_parts if what == "state" else model.check)(acc, M, "stepwise concat")
    ctx.nt(order != sorted(order) or len(parts) > 2)
    ctx.label(what, len(parts), m.freq, "ordered" if order == sorted(order) else "shuffled", "nested" if m.nested else "flat")


DEFECTS = ["overlap", "gap", "gap", "regular", "regular", "regular", "same", "kind", "freq", "tz", "sod", "structure", "names", "inner", "mixed"]


@st.composite
def defects(draw):
    what = draw(st.sampled_from(DEFECTS))
    freqs = {"regular": ["D", "MS", "QS", "h"], "sod": gen.ALLFREQS}.get(what, FREQS)
    lim = {k: min(v, 12) for k, v in NM.items()}
    lim["YS"] = 5
    if what == "regular":
        lim = {"15min": 5, "h": 5, "D": 5, "MS": 5, "QS": 5, "YS": 5}
    spec = draw(gen.ispec(freqs=freqs, nmax=lim, nmin=3 if what in ("gap", "overlap", "regular") else 2, years=(2019, 2024)))
    nested = {"structure": True, "names": True, "inner": True}.get(what)
    k = draw(st.sampled_from("VPRC"))
    sub = gen.sub_spec(spec, 0, 1)
    return {"w": what, "d": draw(model.line(spec, k, depth=2 if what == "inner" else 1, nested=nested)), "k2": draw(st.sampled_from([x for x in "VPRC" if x != k])),
            "j": draw(st.integers(0, 20)), "flip": draw(st.booleans()), "step": draw(st.sampled_from([2, 3, 3, 4, 12, 7])), "spec": spec,
            "tz2": draw(st.sampled_from([t for t in ["Europe/Berlin", None, "Asia/Kolkata", "UTC", "Europe/Paris"] if t != spec["tz"]])),
            "sod2": draw(st.sampled_from([s for s in ([0, 0], [6, 0], [5, 0], [22, 0]) if s != list(spec["sod"])])), "sub": sub, "three": draw(st.booleans())}


def check_defects(case, ctx):
    import portfolyo as pf
    what, d, spec = case["w"], case["d"], case["spec"]
    pfl, m = model.build(d), model.model(d)
    n = spec["n"]
    j = 1 + case["j"] % (n - 1)
    b = m.L + [m.R[-1]]
    c = cuts(m)
    at = stamp(b[c[j]], m)
    a, z = pfl.slice[:at], pfl.slice[at:]

    def go(*parts):
        parts = list(parts)[::-1] if case["flip"] else list(parts)
        must_raise(lambda: pf.concat(parts), (Exception,), f"concatenation of parts with defect '{what}'")

    def other(**kw):
        """The second part described on another index."""
        s = {**gen.sub_spec(spec, j, n - j), **kw}
        return model.build(_on(d, s))
    if what == "overlap":
        if j < 2:
            return
        go(pfl.slice[:stamp(b[c[j]], m)], pfl.slice[stamp(b[c[j - 1]], m):])
    elif what == "same":
        go(a, a)
    elif what == "gap":
        if j >= n - 1:
            return
        go(pfl.slice[:stamp(b[c[j]], m)], pfl.slice[stamp(b[c[j + 1]], m):])
    elif what == "regular":  # single periods (days), evenly spaced: looks like a gapless line of another frequency
        parts = [model.build(_on(d, gen.sub_spec(spec, case["step"] * x, 1))) for x in range(2 + case["j"] % 4)]
        go(*parts)
    elif what == "kind":
        go(a, model.build(_kind(d, case["k2"])).slice[at:])
    elif what == "freq":
        f2 = [f for f in gen.ALLFREQS if f != cal.kind(spec["freq"])][case["j"] % 5]
        e = cal.end_date(gen.sub_spec(spec, 0, j))
        s = cal.floor_date(e, f2)
        if s < e:
            s = cal.next_start(s, f2)
        other_ = model.build(_on(d, {**spec, "freq": f2, "start": [s.year, s.month, s.day], "n": 1}))
        go(a, other_)
    elif what == "tz":
        go(a, other(tz=case["tz2"]))
    elif what == "sod":
        go(a, other(sod=case["sod2"]))
    elif what == "structure":
        go(a, z.flatten())
    elif what == "names":
        names = list(z)
        k = names[case["j"] % len(names)]
        w = pf.PfLine({(x if x != k else "other"): v for x, v in z.items()}) if case["three"] else z.set_child("other", z[k])
        go(a, w)
    elif what == "inner":  # a defect one level down
        names = [x for x in z if model.is_nested(z[x])]
        if not names:
            go(a, z.flatten())
        else:
            go(a, z.set_child(names[0], z[names[0]].flatten()))
    elif what == "mixed":
        go(a, "x" if case["three"] else 0)
    ctx.nt()
    ctx.label(what, m.freq, m.kind)


def _on(d, spec):
    return {**d, "ch": [[n, _on(c, spec)] for n, c in d["ch"]]} if "ch" in d else {**d, "i": spec}


def _kind(d, k):
    if "ch" in d:
        return {**d, "k": k, "ch": [[n, _kind(c, k)] for n, c in d["ch"]]}
    v = d["v"][0]
    return {**d, "k": k, "g": {"V": "w", "P": "p", "R": "r", "C": "wp"}[k], "v": [v, v] if k == "C" else [v]}


@st.composite
def statedefects(draw):
    lim = {k: min(v, 8) for k, v in NM.items()}
    spec = draw(gen.ispec(nmax=lim, nmin=3))
    return {"d": draw(P.state(spec, wide=False)), "spec": spec, "w": draw(st.sampled_from(["overlap", "gap", "same", "mixed"])), "j": draw(st.integers(0, 20)), "flip": draw(st.booleans())}


def check_statedefects(case, ctx):
    import portfolyo as pf
    s = P.build(case["d"])
    m = P.model_of(case["d"]).off
    c, b = cuts(m), m.L + [m.R[-1]]
    n = len(c) - 1
    j = 1 + case["j"] % (n - 1)
    t = [stamp(b[x], m) for x in c]
    w = case["w"]
    if w == "overlap":
        parts = [s.slice[:t[j]], s.slice[t[j - 1]:]]
    elif w == "gap":
        if j + 1 >= len(t) - 1:
            return
        parts = [s.slice[:t[j]], s.slice[t[j + 1]:]]
    elif w == "same":
        parts = [s, s]
    else:
        parts = [s.slice[:t[j]], s.slice[t[j]:].sourced]
    if case["flip"]:
        parts = parts[::-1]
    must_raise(lambda: pf.concat(parts), (Exception,), f"concatenation of states with defect '{w}'")
    ctx.nt()
    ctx.label(w, m.freq)


SUBS = [
    Sub("split", splits, check_splits, 420, 9000, rule="lines and states split at 1-4 boundaries, concatenated in any order, all at once or stepwise. "
        "Non-trivial: more than two parts, or not in order.", examples=tuple(
            {"what": "line", "d": {"k": "V", "i": {"freq": "D", "tz": tz, "sod": [0, 0], "start": start, "n": n}, "g": "w", "v": [{"pool": [1.0, 2.0], "a": 1, "b": 0, "e": 0}]},
             "at": [1], "perm": [1, 0], "twice": False, "arg": "list"}
            for tz, start, n in (("Europe/Berlin", [2019, 3, 31], 2), ("America/New_York", [2024, 11, 3], 2), ("Europe/Berlin", [2020, 10, 24], 3)))),
    Sub("defect", defects, check_defects, 400, 8000, rule="two to five parts with one injected defect (overlap, gap, evenly spaced single periods, repetition, other "
        "kind/frequency/timezone/start-of-day/structure/child names, also one level down, or another type) must be refused. Non-trivial: all that reach the call."),
    Sub("statedefect", statedefects, check_statedefects, 120, 2000, rule="parts of states with overlap, gap, repetition or other type must be refused. Non-trivial: all that reach the call."),
]
