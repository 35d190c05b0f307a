from hypothesis import strategies as st
from .. import cal, gen, model, pfs as P
from ..core import Sub, must_raise
from .p03_nested import cuts, pindex, stamp

FR = gen.ALLFREQS + ["QS-FEB", "YS-APR"]


@st.composite
def states(draw):
    spec = draw(gen.ispec(freqs=FR, nmax=P.NM, long=30))
    return {"s": draw(P.state(spec, sign=draw(st.sampled_from(["any", "any", "pos"])))), "as": draw(st.sampled_from(["line", "series", "dict"]))}


def check_state(case, ctx):
    import portfolyo as pf
    d = case["s"]
    s = P.model_of(d)
    if case["as"] == "dict":
        pfs = pf.PfState(model.raw(d["o"]), model.raw(d["p"]), model.raw(d["s"]) if "s" in d else None)
    elif case["as"] == "series" and not any("ch" in x for x in d.values()) \
            and len({str(l["i"]) for x in d.values() for l in model.leaves(x)}) == 1:
        kw = {k + "o": v for k, v in model.raw(d["o"]).items()}
        kw["pu"] = model.raw(d["p"])["p"]
        if "s" in d:
            kw.update({k + "s": v for k, v in model.raw(d["s"]).items()})
        pfs = pf.PfState.from_series(**kw)
        ctx.label("from_series")
    else:
        pfs = P.build(d)
    P.check_parts(pfs, s)
    n = P.balance(pfs)
    ctx.nt("s" in d and n > 0)
    ctx.label("sourced" if "s" in d else "unsourced", "nested" if "ch" in d["o"] or "ch" in d.get("s", {}) else "flat")


@st.composite
def bad(draw):
    spec = draw(gen.ispec(nmax=P.NM, nmin=2))
    k = draw(st.sampled_from(["price-short-end", "price-short-start", "src-short-end", "src-short-start", "kind-o", "kind-p", "kind-s", "none-o",
                              "none-p", "freq-p", "freq-s", "sod-p", "tz-s"]))
    return {"i": spec, "k": k, "s": draw(P.state(spec, wide=False, sourced=True, nested=False)),
            "alt": draw(model.line(spec, draw(st.sampled_from("PR" if k == "kind-o" else "VR" if k == "kind-p" else "VPR")), depth=0)),
            "m": draw(st.integers(1, 3))}


def check_bad(case, ctx):
    import portfolyo as pf
    spec, k, d = case["i"], case["k"], case["s"]
    ctx.label(k)
    P.balance(P.build(d))
    d = {x: dict(y) for x, y in d.items()}
    m = min(case["m"], spec["n"] - 1)
    tgt = {"price": "p", "src": "s", "freq": d, "sod": d}.get(k.split("-")[0])
    if k.endswith("short-end"):
        d[tgt]["i"] = gen.sub_spec(spec, 0, spec["n"] - m)
    elif k.endswith("short-start"):
        d[tgt]["i"] = gen.sub_spec(spec, m, spec["n"] - m)
    elif k.startswith("kind"):
        d[k[-1]] = case["alt"]
    elif k.startswith("freq"):
        f = "h" if spec["freq"] == "D" else "D"
        days = (cal.end_date(spec) - cal.dt.date(*spec["start"])).days
        if days > 400 and f == "h":
            return
        d[k[-1]]["i"] = {**spec, "freq": f, "n": days}
    elif k.startswith("sod"):
        d["p"]["i"] = gen.sub_spec({**spec, "sod": [7, 0] if spec["sod"] != [7, 0] else [3, 0]}, -1, spec["n"] + 2)
    elif k.startswith("tz"):
        d["s"]["i"] = gen.sub_spec({**spec, "tz": "Asia/Tokyo" if spec["tz"] != "Asia/Tokyo" else None}, -1, spec["n"] + 2)
    ctx.nt()
    if k.startswith("none"):
        o = None if k == "none-o" else model.build(d["o"])
        p = None if k == "none-p" else model.build(d["p"])
        must_raise(lambda: pf.PfState(o, p, model.build(d["s"])), (ValueError, TypeError), k)
        return
    o, p, s = (model.build(d[x]) for x in "ops")
    must_raise(lambda: pf.PfState(o, p, s), (ValueError,), k)


@st.composite
def histories(draw):
    spec = draw(gen.ispec(freqs=FR, nmax=P.NM, nmin=2))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["slice", "loc", "asfreq", "add", "sub", "mul", "neg", "div", "seto", "setp", "sets", "addsrc", "source", "rebuild",
                                  "concat"]))
        o = [k]
        if k in ("slice", "loc", "concat"):
            o += [draw(st.integers(0, 4)), draw(st.integers(1, 40))]
        elif k == "asfreq":
            o += [draw(st.sampled_from(gen.ALLFREQS))]
        elif k in ("add", "sub"):
            o += [draw(P.state(spec, wide=False))]
        elif k in ("mul", "div"):
            o += [draw(st.sampled_from([2, -1, 0.5, 3, -0.25]))]
        elif k == "seto":
            o += [draw(model.line(spec, "V", depth=1))]
        elif k == "setp":
            o += [draw(model.line(spec, "P", depth=0))]
        elif k in ("sets", "addsrc"):
            o += [draw(model.line(spec, "C", depth=1))]
        elif k == "source":
            o += [draw(st.sampled_from(["vol", "val"])), draw(st.sampled_from(["D", "MS", "MS", "QS"]))]
        ops.append(o)
    return {"s": draw(P.state(spec)), "ops": ops}


def step(pfs, o, ctx):
    """Returns the next state (or the same if the operation is not applicable). No reference values here."""
    import portfolyo as pf
    k, i = o[0], pfs.index
    m = model.of(pfs.offtake)
    if k in ("slice", "loc", "concat"):
        cs = cuts(m)
        a = min(o[1], len(cs) - 2)
        b = max(a + 1, min(len(cs) - 1, a + o[2]))
        lo, hi = cs[a], cs[b]
        if k == "slice":
            return pfs.slice[stamp(m.L[lo], m):stamp(m.R[hi - 1], m)]
        if k == "loc":
            return pfs.loc[stamp(m.L[lo], m):stamp(m.L[hi - 1], m)]
        if a == 0:
            return pfs
        return pf.concat([pfs.slice[:stamp(m.L[lo], m)], pfs.slice[stamp(m.L[lo], m):]])
    if k == "asfreq":
        c = cal.order(o[1]) - cal.order(m.freq)
        if "-" in m.freq and cal.kind(o[1]) in ("QS", "YS"):
            return pfs
        if c > 0 and not model.targets(m, o[1]):
            return pfs
        if c < 0 and sum(m.hours) / {"15min": 0.25, "h": 1, "D": 24, "MS": 720, "QS": 2100, "YS": 8760}[cal.kind(o[1])] > 500:
            return pfs
        return pfs.asfreq(o[1])
    if k in ("add", "sub"):
        om = model.model(o[1]["o"])
        if om.freq != m.freq or not model.common(m, om):
            return pfs
        x = P.build(o[1])
        return pfs + x if k == "add" else pfs - x
    if k == "mul":
        return pfs * o[1]
    if k == "div":
        return pfs / o[1]
    if k == "neg":
        return -pfs
    if k in ("seto", "setp", "sets", "addsrc"):
        om = model.model(o[1])
        inner, outer = (om.L, set(m.L)) if k == "seto" else (m.L, set(om.L))
        if om.freq != m.freq or any(l not in outer for l in inner):
            return pfs
        x = model.build(o[1])
        return {"seto": pfs.set_offtakevolume, "setp": pfs.set_unsourcedprice, "sets": pfs.set_sourced, "addsrc": pfs.add_sourced}[k](x)
    if k == "source":
        if m.freq not in ("15min", "h", "D") or (o[2] == "D" and m.freq == "D") or not model.targets(m, o[2]) or o[1] == "val":
            return pfs
        t = model.targets(m, o[2])
        lo, hi = t[0][0], t[-1][1]
        return pfs.slice[stamp(lo, m):stamp(hi, m)].source_unsourced(o[1], None, o[2])
    if k == "rebuild":
        return pf.PfState(pfs.offtakevolume, pfs.unsourcedprice, pfs.sourced)
    raise AssertionError(k)


def check_history(case, ctx):
    pfs = P.build(case["s"])
    P.balance(pfs, "start")
    done = 0
    for j, o in enumerate(case["ops"]):
        new = step(pfs, o, ctx)
        if new is not pfs:
            done += 1
            ctx.label(o[0])
        pfs = new
        P.balance(pfs, f"after {j}:{o[0]}")
        if len(pfs.index) > 1000:
            break
    ctx.nt(done >= 1)


SUBS = [
    Sub("state", states, check_state, 280, 8000, rule="a state built from lines, from dictionaries or from_series; all derived positions and accounting "
        "relations compared to the reference model. Non-trivial: some sourced volume present."),
    Sub("history", histories, check_history, 140, 6000, rule="1-5 operations on a state; all accounting relations hold on what the final state reports. "
        "Non-trivial: at least one effective step."),
    Sub("refuse", bad, check_bad, 130, 2500, rule="parts that do not cover the offtake, are of the wrong kind, or lie on an incompatible index are refused "
        "(while the unmodified parts are accepted). All cases non-trivial."),
]
