from hypothesis import strategies as st
import datetime as dt
from .. import cal, gen, model
from ..cmp import close, mag
from ..core import Sub, must_raise

NM = {"15min": 3, "h": 4, "D": 40, "MS": 16, "QS": 8, "YS": 4}


def span(spec, a, b):
    """Part of the span: skip `a` units, keep up to b units (of the original n)."""
    a = min(a, spec["n"] - 1)
    return gen.sub_spec(spec, a, max(1, min(b, spec["n"] - a)))


@st.composite
def histories(draw):
    spec = draw(gen.ispec(freqs=gen.ALLFREQS + ["QS-FEB", "YS-APR"], nmax=NM, nmin=2, long=40))
    kind = draw(st.sampled_from(model.KINDS + ["C"]))
    start = draw(model.line(spec, kind, depth=2, shift=draw(st.sampled_from([0, 0, 1])), nested=True))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["set", "set", "set", "replace", "drop", "add", "sub", "scale", "neg", "div", "sscale", "asfreq",
                                   "slice", "slice", "loc", "flatten", "part", "rebuild", "child", "reindex", "concat", "frame"]))
        if op in ("set", "replace", "add", "sub"):
            sh = draw(st.sampled_from([0, 0, 1, 2]))
            s = gen.sub_spec(spec, draw(st.integers(-sh, sh)), spec["n"] + draw(st.integers(0, sh)))
            ops.append([op, draw(st.sampled_from(model.NAMES)), draw(model.line(s, kind, depth=1 if op in ("set", "replace") else 2,
                        nested=draw(st.sampled_from([None, True]))))])
        elif op in ("scale", "div"):
            ops.append([op, draw(st.sampled_from([2, -1, 0.5, 3, 1, -0.25, 10]))])
        elif op == "sscale":
            ops.append([op, draw(gen.vals("nz"))])
        elif op == "asfreq":
            ops.append([op, draw(st.sampled_from(gen.ALLFREQS))])
        elif op in ("slice", "loc", "concat", "reindex"):
            ops.append([op, draw(st.integers(0, 3)), draw(st.integers(1, 40))])
        elif op in ("drop", "child"):
            ops.append([op, draw(st.integers(0, 2))])
        elif op == "part":
            ops.append([op, draw(st.sampled_from("VPRC"))])
        else:
            ops.append([op])
    return {"start": start, "ops": ops, "spec": spec}


def cuts(m):
    """Positions at which a selection of whole days may start or end."""
    if m.freq in cal.STEP:
        return [j for j, l in enumerate(m.L) if l == cal.bound(cal.delivery_date(l, m.tz, m.sod), m.sod, m.tz)] + [len(m.L)]
    return list(range(len(m.L) + 1))


def stamp(e, m):
    import pandas as pd
    t = pd.Timestamp(e, unit="s")
    return t if m.tz is None else t.tz_localize("UTC").tz_convert(m.tz)


def pindex(m):
    import pandas as pd
    return pd.date_range(stamp(m.L[0], m), periods=len(m.L), freq=m.freq)


def parts(m):
    return {"V": "V", "P": "P", "R": "R", "C": "VPRC"}[m.kind]


def apply(pfl, m, op, ctx):
    """One step on the real line and on the model. Returns the new pair."""
    import pandas as pd
    import portfolyo as pf
    k = op[0]
    if k in ("set", "replace"):
        if not m.nested:
            return pfl, m
        name = op[1] if k == "set" else list(m.children)[len(op[1]) % len(m.children)]
        cm = model.model(op[2])
        if cm.kind != m.kind:
            must_raise(lambda: pfl.set_child(name, model.build(op[2])), (ValueError,), "child of other kind")
            return pfl, m
        if cm.freq != m.freq:
            must_raise(lambda: pfl.set_child(name, model.build(op[2])), (ValueError,), "child of other frequency")
            return pfl, m
        L = model.common(m, cm)
        if not L:
            must_raise(lambda: pfl.set_child(name, model.build(op[2])), (ValueError,), "child without overlap")
            return pfl, m
        ctx.label("setpartial" if len(L) < len(m.L) else "setfull")
        new = pfl.set_child(name, model.build(op[2]) if len(op[1]) % 2 else model.raw(op[2]))
        m = m.restrict(L)
        return new, m.like(children={**m.children, name: cm.restrict(L)})
    if k == "drop":
        if not m.nested:
            return pfl, m
        name = list(m.children)[op[1] % len(m.children)]
        if len(m.children) == 1:
            must_raise(lambda: pfl.drop_child(name), (Exception,), "dropping the last child")
            return pfl, m
        return pfl.drop_child(name), m.like(children={n: c for n, c in m.children.items() if n != name})
    if k in ("add", "sub"):
        om = model.model(op[2])
        if om.kind != m.kind or om.freq != m.freq or not model.common(m, om):
            return pfl, m
        o = model.build(op[2])
        if k == "add":
            return pfl + o, model.add(m, om)
        return pfl - o, model.add(m, model.scale(om, -1))
    if k == "scale":
        return (pfl * op[1] if op[1] != 3 else op[1] * pfl), model.scale(m, op[1])
    if k == "div":
        return pfl / op[1], model.scale(m, 1 / op[1])
    if k == "neg":
        return -pfl, model.scale(m, -1)
    if k == "sscale":
        f = gen.expand(op[1], len(m.L))
        return pfl * pd.Series(f, pindex(m)).astype("pint[dimensionless]"), model.scale(m, f)
    if k == "asfreq":
        freq = op[1]
        c = cal.order(freq) - cal.order(m.freq)
        if c > 0:
            if "-" in m.freq and cal.kind(freq) in ("QS", "YS"):
                return pfl, m
            down = model.downsample(m, freq)
            if down is None:
                must_raise(lambda: pfl.asfreq(freq), (ValueError,), f"asfreq({freq}) without a full period")
                return pfl, m
            return pfl.asfreq(freq), down
        if c < 0:
            if "-" in m.freq and cal.kind(freq) == "QS":
                return pfl, m
            if sum(m.hours) / {"15min": 0.25, "h": 1, "D": 24, "MS": 720, "QS": 2100, "YS": 8760}[cal.kind(freq)] > 800:
                return pfl, m
            return pfl.asfreq(freq), model.upsample(m, freq)
        return (pfl.asfreq(freq), model.upsample(m, freq)) if freq == m.freq else (pfl, m)
    if k in ("slice", "loc", "concat", "reindex"):
        cs = cuts(m)
        a = min(op[1], len(cs) - 2)
        b = max(a + 1, min(len(cs) - 1, a + op[2]))
        lo, hi = cs[a], cs[b]
        sub = m.pick(range(lo, hi))
        if k == "slice":
            return pfl.slice[stamp(m.L[lo], m):stamp(m.R[hi - 1], m)], sub
        if k == "loc":
            return pfl.loc[stamp(m.L[lo], m):stamp(m.L[hi - 1], m)], sub
        if k == "concat":
            if not 0 < a < len(cs) - 1:
                return pfl, m
            x, y = pfl.slice[:stamp(m.L[lo], m)], pfl.slice[stamp(m.L[lo], m):]
            return pf.concat([y, x] if op[2] % 2 else [x, y]), m
        return pfl.reindex(pindex(sub)), model.undetermined(sub)
    if k == "flatten":
        return pfl.flatten(), m.flat()
    if k == "part":
        if op[1] not in parts(m):
            return pfl, m
        return {"V": lambda: pfl.volume, "P": lambda: pfl.price, "R": lambda: pfl.revenue, "C": lambda: pfl}[op[1]](), m.part(op[1])
    if k == "rebuild":
        return (pf.PfLine(dict(pfl.items())), m) if m.nested else (pf.PfLine(pfl), m)
    if k == "frame":  # dictionary of the children's own dataframes / of nothing but a new top-level name
        if not m.nested:
            return pf.PfLine({"top": pfl}), m.like(children={"top": m})
        return pf.PfLine({"top": pfl, "rest": pfl * 2}), m.like(children={"top": m, "rest": model.scale(m, 2)})
    if k == "child":
        if not m.nested:
            return pfl, m
        name = list(m.children)[op[1] % len(m.children)]
        return pfl[name], m.children[name]
    raise AssertionError(k)


def consistent(pfl, what=""):
    """Relations between the data that the line itself reports (no reference values)."""
    m = model.of(pfl)
    if not m.nested:
        return
    agg = m.flat()
    model.check(pfl.flatten(), agg, f"{what} flatten vs children")
    for c in model.COLS[m.kind]:
        close(mag(getattr(pfl.flatten(), c), c), mag(getattr(pfl, c), c), f"{what} flatten.{c} vs top level")
    for n, c in pfl.items():
        assert gen.epochs(c.index) == m.L and c.index.freq == pfl.index.freq, f"{what}: child {n} on another index"
        assert c.kind is pfl.kind
        consistent(c, f"{what}[{n}]")


def check(case, ctx):
    m = model.model(case["start"])
    if not m.L:
        must_raise(lambda: model.build(case["start"]), (ValueError,), "children without overlap")
        ctx.label("nooverlap")
        return
    pfl = model.build(case["start"])
    model.check(pfl, m, "start")
    done = 0
    for j, op in enumerate(case["ops"]):
        new, nm = apply(pfl, m, op, ctx)
        if new is not pfl:
            done += 1
            ctx.label(op[0])
        pfl, m = new, nm
        if m.kind == "C":  # a position that cancels out exactly has no meaningful price, but must keep w,q,r
            pass
        model.check(pfl, m, f"after {j}:{op[0]}")
        consistent(pfl, f"after {j}:{op[0]}")
        if len(m.L) * max(1, len(m.children or [1])) > 3000:
            break
    ctx.nt(done >= 2)


@st.composite
def extract(draw):
    spec = draw(gen.ispec(nmax=NM))
    return {"d": draw(model.line(spec, "C", depth=2, nested=True, shift=draw(st.sampled_from([0, 1]))))}


def check_extract(case, ctx):
    import portfolyo as pf
    try:
        m = model.model(case["d"])
    except Exception as e:  # no overlap between children
        raise AssertionError(str(e))
    if not m.L:
        must_raise(lambda: model.build(case["d"]), (ValueError,), "children without overlap")
        ctx.label("nooverlap")
        return
    pfl = model.build(case["d"])
    for k, part in zip("VPR", (pfl.volume, pfl.price, pfl.revenue)):
        model.check(part, m.part(k), f"part {k}")
    model.check(pfl.volume.flatten(), m.part("V").flat(), "volume.flatten")
    model.check(pfl.flatten().volume, m.flat().part("V"), "flatten.volume")
    model.check(pfl.flatten().revenue, m.flat().part("R"), "flatten.revenue")
    ctx.nt(len(m.children) > 1)
    ctx.label(case["d"]["k"], len(m.children))


SUBS = [
    Sub("history", histories, check, 900, 16000, rule="history of 1-6 operations (set/replace/drop child, add, subtract, scale, asfreq, slice, "
        "loc, concat, reindex, flatten, extract, rebuild) from a generated nested line; after every step the line and all levels equal the reference "
        "model and the aggregate of their own children. Non-trivial: at least two effective steps."),
    Sub("extract", extract, check_extract, 300, 4000, rule="volume/price/revenue/flatten of nested complete lines. Non-trivial: several children."),
]
