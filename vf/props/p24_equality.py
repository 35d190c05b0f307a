"""P24: equality and truthiness reflect the data."""
import copy
from hypothesis import strategies as st
import numpy as np
from .. import cal, gen, model, pfs as P
from ..core import Sub, must_raise

NM = {"15min": 2, "h": 3, "D": 12, "MS": 8, "QS": 6, "YS": 4}
FREQS = gen.ALLFREQS + ["QS-FEB", "YS-APR"]
SAME = ["again", "copy", "index-name", "child-order", "own-df", "tiny", "units"]
NESTED = ["child-order", "rename", "extra", "fewer", "swap"]  # about the children
OTHER = ["value", "value", "value", "value", "shift", "shorter", "kind", "rename", "extra", "fewer", "structure", "tz", "sod", "swap", "freq"]


@st.composite
def pairs(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, long=40))
    how = draw(st.sampled_from(SAME if draw(st.integers(0, 3)) == 3 else OTHER))
    d = draw(model.line(spec, depth=3, nested=True if how in NESTED else draw(st.sampled_from([None, True, False]))))
    return {"d": d, "how": how, "leaf": draw(st.integers(0, 30)), "at": draw(st.integers(0, 10**6)),
            "g": draw(st.integers(0, 3)), "by": draw(st.sampled_from([2.0, -1.0, 0.5, 1.001, 0.0])), "add": draw(st.sampled_from([1.0, -0.125, 64.0]))}


def map_leaves(d, f, path=()):
    """Same tree, with f(descriptor, path) at the leaves."""
    if "ch" in d:
        return {**d, "ch": [[n, map_leaves(c, f, path + (n,))] for n, c in d["ch"]]}
    return f(d, path)


def paths(d, path=()):
    return [p for n, c in d["ch"] for p in paths(c, path + (n,))] if "ch" in d else [path]


def raw(d, change=None, path=(), name=None):
    """User's data; `change`: (path, key, position, function) for one value."""
    if "ch" in d:
        return {n: raw(c, change, path + (n,), name) for n, c in d["ch"]}
    i = gen.build_index(d["i"], name)
    out = {}
    for key, v in zip(d["g"], d["v"]):
        x = gen.expand(v, len(i))
        if change and change[0] == path and change[1] == key:
            x[change[2]] = change[3](x[change[2]])
        out[key] = gen.pd.Series(x, i)
    return out


def nodes(d, path=()):
    """Paths of the nested nodes."""
    return [path] + [p for n, c in d["ch"] for p in nodes(c, path + (n,))] if "ch" in d else []


def at(d, path):
    for n in path:
        d = dict((a, b) for a, b in d["ch"])[n]
    return d


def reverse(d):
    return {**d, "ch": [[n, reverse(c)] for n, c in reversed(d["ch"])]} if "ch" in d else d


def from_own(a):
    """The line rebuilt from the data it reports."""
    import portfolyo as pf
    if a.structure is pf.Structure.NESTED:
        return pf.PfLine({n: from_own(c) for n, c in a.items()})
    cols = {"V": ["w"], "P": ["p"], "R": ["r"], "C": ["w", "q", "p", "r"]}[model.kind_of(a)]
    return pf.PfLine({c: getattr(a, c) for c in cols})


def expect(a, b, eq, what):
    r = (a == b, b == a, a != b, b != a)
    assert all(isinstance(x, (bool, np.bool_)) for x in r), f"{what}: comparison gives {r}"
    assert r == (eq, eq, not eq, not eq), f"{what}: expected {'equal' if eq else 'unequal'}; a==b, b==a, a!=b, b!=a give {r}"


def check_pairs(case, ctx):
    import portfolyo as pf
    d, how = case["d"], case["how"]
    a = model.build(d)
    expect(a, a, True, "line and itself")
    lp = paths(d)
    path = lp[case["leaf"] % len(lp)]
    leaf = at(d, path)
    n = len(a.index)
    m = model.model(d)
    ctx.label(how, d["k"], "nested" if "ch" in d else "flat")
    ctx.nt()
    eq = how in SAME
    if how == "again":
        b = model.build(d)
    elif how == "copy":
        b = pf.PfLine(a)
        expect(a, copy.deepcopy(a), True, "line and its deep copy")
        expect(a, copy.copy(a), True, "line and its copy")
    elif how == "index-name":
        b = pf.PfLine(raw(d, name="delivery from"))
    elif how == "child-order":
        b = model.build(reverse(d))
        ctx.label("reordered" if any(len(at(d, x)["ch"]) > 1 for x in nodes(d)) else "")
    elif how == "own-df":
        if d["k"] == "C" and not all(np.all(c != 0) for c in [model.model(x).cols["q"] for x in model.leaves(d)]):
            return  # what a period without volume reports does not determine the line
        b = from_own(a)
    elif how == "units":
        b = pf.PfLine(units(raw(d)))
    elif how in ("tiny", "value"):
        key = leaf["g"][case["g"] % len(leaf["g"])]
        j = case["at"] % n
        old = raw(d)
        for x in path:
            old = old[x]
        old = float(old[key].iloc[j])
        if how == "tiny":
            b = pf.PfLine(raw(d, (path, key, j, lambda x: x * (1 + 1e-13))))
        else:
            new = old * case["by"] if abs(old * case["by"] - old) > 1e-2 else old + case["add"]
            if leaf["g"] in ("qr", "wr", "pr") and new == 0:
                new = old + 64.0 if old != -64 else 1.0
            b = pf.PfLine(raw(d, (path, key, j, lambda x: new)))
    elif how in ("shift", "shorter", "tz", "sod", "freq"):
        i = leaf["i"]
        if how == "shift":
            j = gen.sub_spec(i, 1, i["n"])
        elif how == "shorter":
            j = gen.sub_spec(i, 0, i["n"] + 1)
        elif how == "tz":
            j = {**i, "tz": "Europe/Berlin" if i["tz"] is None else None if case["at"] % 2 else "Asia/Tokyo"}
        elif how == "sod":
            j = {**i, "sod": [7, 0]}
        else:
            if cal.kind(i["freq"]) not in ("MS", "QS"):
                return
            first = [2021, 2 if i["freq"] == "QS-FEB" else 1, 1]
            i2 = {**i, "freq": "MS" if cal.kind(i["freq"]) == "QS" else "QS", "start": first, "n": 1}
            d = map_leaves(d, lambda x, p: {**x, "i": {**x["i"], "start": first, "n": 1}})
            a, j = model.build(d), i2
        b = model.build(map_leaves(d, lambda x, p: {**x, "i": j}))
    elif how == "kind":
        if d["k"] == "C":
            b = [a.volume, a.price, a.revenue][case["at"] % 3]
        else:
            b = model.build(map_kind(d, {"V": "P", "P": "R", "R": "P"}[d["k"]]))
    elif how == "structure":
        b = a.flatten() if "ch" in d else pf.PfLine({"A": a})
    else:  # names of children
        ns = nodes(d)
        if not ns:
            return
        np_ = ns[case["at"] % len(ns)]
        d2 = copy.deepcopy(d)
        node = at(d2, np_)
        names = [x for x, _ in node["ch"]]
        k = case["leaf"] % len(names)
        if how == "rename":
            node["ch"][k][0] = "other"
        elif how == "extra":  # even one without any value
            z = copy.deepcopy(leaf)
            z["v"] = [{"pool": [0.0 if z["g"] not in ("qr", "wr", "pr") else 1.0], "a": 1, "b": 0, "e": 0} for _ in z["v"]]
            node["ch"].append(["extra", z])
        elif how == "fewer":
            if len(names) < 2:
                return
            del node["ch"][k]
        else:
            if len(names) < 2:
                return
            o = (k + 1) % len(names)
            if same_tree(node["ch"][k][1], node["ch"][o][1]):
                return
            node["ch"][k][1], node["ch"][o][1] = node["ch"][o][1], node["ch"][k][1]
        b = model.build(d2)
    expect(a, b, eq, f"line and {how}")
    if not eq and how in ("value", "rename", "swap"):  # also as part of something larger
        expect(pf.PfLine({"x": a, "y": a}), pf.PfLine({"x": a, "y": b}), False, f"tree with {how} in last child")
        expect(pf.PfLine({"x": a, "y": a}), pf.PfLine({"x": b, "y": a}), False, f"tree with {how} in first child")


def same_tree(x, y):
    a, b = model.model(x), model.model(y)

    def eq(a, b):
        if a.nested != b.nested:
            return False
        if a.nested:
            return set(a.children) == set(b.children) and all(eq(a.children[n], b.children[n]) for n in a.children)
        return all(np.allclose(a.cols[k], b.cols[k], equal_nan=True, rtol=1e-4) for k in model.COLS[a.kind])
    return eq(a, b)


def map_kind(d, k):
    if "ch" in d:
        return {"k": k, "ch": [[n, map_kind(c, k)] for n, c in d["ch"]]}
    return {**d, "k": k, "g": {"V": "w", "P": "p", "R": "r"}[k]}


def units(r):
    if isinstance(r, dict):
        return {k: units(v) if isinstance(v, dict) else (v * 1000).astype({"w": "pint[kW]", "q": "pint[kWh]", "p": "pint[Eur/GWh]", "r": "pint[Eur]"}[k])
                if k != "r" else v.astype("pint[Eur]") for k, v in r.items()}
    return r


@st.composite
def foreign(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM))
    what = draw(st.sampled_from(["line", "line", "state"]))
    return {"what": what, "d": draw(P.state(spec) if what == "state" else model.line(spec, depth=2)),
            "o": draw(st.sampled_from(["int", "zero", "none", "str", "tuple", "list", "object", "type", "dict", "quantity", "dfless", "childdict", "child", "part", "tuple3"]))}


def check_foreign(case, ctx):
    import portfolyo as pf
    d = case["d"]
    a = P.build(d) if case["what"] == "state" else model.build(d)
    o = case["o"]
    b = {"int": 3, "zero": 0, "none": None, "str": "x", "tuple": (1,), "list": [a], "object": object(), "type": type(a), "dict": {}, "quantity": pf.Q_(3.0, "MW")}.get(o)
    if o == "dfless":
        b = {"df": 1}
    elif o == "childdict":
        b = {"A": a} if case["what"] == "state" or "ch" not in d else dict(a.items())
    elif o == "child":
        b = a.sourced if case["what"] == "state" else (a[list(a)[0]] if "ch" in d else pf.PfLine({"A": a}))
    elif o == "part":
        b = a.offtakevolume if case["what"] == "state" else "part"
    elif o == "tuple3":
        b = (a, a, a)
    expect(a, b, False, f"{case['what']} and {o}")
    ctx.label(case["what"], o)
    ctx.nt()


# -- truthiness


@st.composite
def truths(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM))
    d = draw(model.line(spec, depth=3))
    return {"d": d, "zero": draw(st.lists(st.booleans(), min_size=12, max_size=12)), "how": draw(st.sampled_from(["all", "some", "some", "single", "single", "pair"])),
            "leaf": draw(st.integers(0, 30)), "at": draw(st.integers(0, 10**6)), "val": draw(st.sampled_from([1.0, -1.0, 0.125, -0.001, 1e6]))}


def check_truths(case, ctx):
    import portfolyo as pf
    d, how = case["d"], case["how"]
    lp = paths(d)
    target = lp[case["leaf"] % len(lp)]
    n = len(gen.build_index(model.leaves(d)[0]["i"]))
    truth = []

    def build(x, p):
        if "ch" in x:
            return {m: build(c, p + (m,)) for m, c in x["ch"]}
        i = gen.build_index(x["i"])
        z = how != "some" or case["zero"][lp.index(p) % 12]
        k = {"V": "w", "P": "p", "R": "r", "C": ["qr", "wp", "wr"][case["at"] % 3]}[x["k"]]
        cols = {c: np.zeros(n) if z else gen.expand(x["v"][0], n) for c in k}
        if how in ("single", "pair") and p == target:
            v = cols["qwpr"[["q" in k, "w" in k, "p" in k, "r" in k].index(True)]]
            v[case["at"] % n] = case["val"]
            if how == "pair" and n > 1:  # values that cancel out over time
                v[(case["at"] + 1) % n] = -case["val"]
        if k == "wp" and not z:
            cols["p"][:] = 5.0
        if k in ("qr", "wr"):  # revenue without volume contradicts
            v, r = cols[k[0]], cols["r"]
            r[v == 0] = 0
        t = [np.any(np.abs(v) > 1e-7) for c, v in cols.items()]
        g = [np.any(np.abs(v) > 0) for c, v in cols.items()]
        truth.append((any(t) if k != "wp" else bool(t[0]), any(g) if k != "wp" else bool(g[0])))
        return {c: gen.pd.Series(v, i) for c, v in cols.items()}
    a = pf.PfLine(build(d, ()))
    sure, maybe = any(t for t, _ in truth), any(g for _, g in truth)
    if sure != maybe:
        return
    got = bool(a)
    assert got == sure, f"truth value {got} of a line that contains {'' if sure else 'no '}non-zero data"
    ctx.label(how, d["k"], "nested" if "ch" in d else "flat", str(sure))
    ctx.nt(("ch" in d) or how in ("single", "pair") or not sure)


# -- volumes that cancel out


@st.composite
def cancels(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM))
    return {"i": spec, "w": draw(st.sampled_from([1.0, -2.5, 40.0])), "p": draw(st.sampled_from([0.0, 30.0, -4.0])), "dp": draw(st.sampled_from([0.0, 0.0, 1.0, -20.0])),
            "dw": draw(st.sampled_from([0.0, 0.0, 1.0])), "at": draw(st.integers(0, 10**6)), "nest": draw(st.booleans()), "rest": draw(st.booleans())}


def check_cancels(case, ctx):
    import portfolyo as pf
    i = gen.build_index(case["i"])
    n = len(i)
    k = case["at"] % n
    at = (np.arange(n) == k) | case["rest"]

    def line(w, p):
        return pf.PfLine({"w": gen.pd.Series(w, i), "p": gen.pd.Series(p, i)})
    a = line(np.full(n, case["w"]), np.full(n, case["p"]))
    b = line(np.full(n, -case["w"]) + case["dw"] * at, np.full(n, case["p"]) + case["dp"] * at)
    s = a + b
    # the volume cancels except for dw; the revenue is what remains at the selected timestamps
    w, r = case["dw"], case["w"] * case["p"] + (case["dw"] - case["w"]) * (case["p"] + case["dp"])
    exp = bool(w or r)
    if case["nest"]:
        s = pf.PfLine({"A": line(np.zeros(n), np.full(n, 3.0)), "B": s})
    got = bool(s)
    assert got == exp, f"truth value {got} of sum of lines, in which volume {w} and revenue {r} per hour remain"
    ctx.label("volume remains" if w else "no volume", "revenue remains" if r else "no revenue")
    ctx.nt(not w)


# -- states


@st.composite
def states(draw):
    spec = draw(gen.ispec(freqs=["h", "D", "D", "MS", "MS", "QS", "YS"], nmax=NM, nmin=2))
    d = draw(P.state(spec, wide=False, sourced=True))
    return {"d": d, "how": draw(st.sampled_from(["again", "name", "wide", "o", "p", "p", "s", "o", "s", "shift", "parts", "structure"])), "leaf": draw(st.integers(0, 30)),
            "at": draw(st.integers(0, 10**6)), "g": draw(st.integers(0, 3)), "add": draw(st.sampled_from([1.0, -0.125, 64.0])), "closed": draw(st.booleans())}


def check_states(case, ctx):
    import portfolyo as pf
    d, how = case["d"], case["how"]
    if case["closed"]:  # fully sourced: the market price is still part of the state
        d = {**d, "s": neg_of(d["o"])}
    a = P.build(d)
    expect(a, a, True, "state and itself")
    ctx.nt()
    ctx.label(how, "closed" if case["closed"] else "open")
    eq = how in ("again", "name", "wide", "parts")
    if how == "again":
        b = P.build(d)
    elif how == "name":
        b = pf.PfState(*(pf.PfLine(raw(d[k], name="ts")) for k in "ops"))
    elif how == "wide":  # prices beyond the delivery period
        p = map_leaves(d["p"], lambda x, _: {**x, "i": gen.sub_spec(x["i"], 0, x["i"]["n"] + 1)})
        b = pf.PfState(model.build(d["o"]), model.build(p), model.build(d["s"]))
    elif how == "parts":
        b = pf.PfState(a.offtakevolume, a.unsourcedprice, a.sourced)
    elif how == "structure":
        b = pf.PfState(a.offtakevolume.flatten() if "ch" in d["o"] else pf.PfLine({"A": a.offtakevolume}), a.unsourcedprice, a.sourced)
    elif how == "shift":
        b = P.build({k: map_leaves(x, lambda y, _: {**y, "i": gen.sub_spec(y["i"], 1, y["i"]["n"])}) for k, x in d.items()})
    else:
        lp = paths(d[how])
        path = lp[case["leaf"] % len(lp)]
        leaf = at(d[how], path)
        key = leaf["g"][case["g"] % len(leaf["g"])]
        n = len(a.index)
        ds = {k: model.build(d[k]) for k in "ops"}
        ds[how] = pf.PfLine(raw(d[how], (path, key, case["at"] % n, lambda x: x + (case["add"] if x + case["add"] != 0 else 2 * case["add"]))))
        b = pf.PfState(*(ds[k] for k in "ops"))
    expect(a, b, eq, f"state and {how}")


def neg_of(o):
    """Sourced position that closes the offtake (at price 5)."""
    def f(x, p):
        return {"k": "C", "i": x["i"], "g": x["g"] + "p", "v": [{**x["v"][0], "pool": [-y for y in x["v"][0]["pool"]]}, {"pool": [5.0], "a": 1, "b": 0, "e": 0}]}
    o = map_leaves(o, f)

    def k(x):
        return {"k": "C", "ch": [[n, k(c)] for n, c in x["ch"]]} if "ch" in x else x
    return k(o)


SUBS = [
    Sub("line", pairs, check_pairs, 450, 14000, rule="a generated line and a variant that must be equal (rebuilt, copied, other index name, child order, units, rounding) or "
        "unequal (one value, shifted or longer span, timezone, start-of-day, frequency, kind, structure, renamed/added/dropped/swapped child, at any depth); == and != in both directions. All non-trivial."),
    Sub("foreign", foreign, check_foreign, 150, 2000, rule="comparison with objects of other types is just False. All non-trivial."),
    Sub("truth", truths, check_truths, 400, 8000, rule="bool() of lines with all-zero, partly zero and single non-zero data at any place in the tree. Non-trivial: nested, "
        "a single non-zero value, or none."),
    Sub("cancel", cancels, check_cancels, 120, 2000, rule="bool() of the sum of two lines in which the volume, the revenue, both or neither cancels. Non-trivial: no volume remains."),
    Sub("state", states, check_states, 120, 3000, rule="states that must be equal, or that differ in a single value of one part, span or structure; incl. fully sourced ones. All non-trivial."),
]
