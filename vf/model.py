"""Reference model of portfolio lines: plain numpy per delivery period, no pandas resampling, no units library.

kind: 'V' (w,q), 'P' (p), 'R' (r), 'C' (w,q,p,r).  Column p of a 'C' model may be nan = "not determined" where the
volume is zero; such positions are not compared.
"""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import cal, gen
from .cmp import close, mag, same_index

KINDS = ["V", "P", "R", "C"]
COLS = {"V": ["w", "q"], "P": ["p"], "R": ["r"], "C": ["w", "q", "p", "r"]}


class M:
    def __init__(self, kind, freq, tz, sod, bounds_l, bounds_r, cols=None, children=None, amp=None):
        self.kind, self.freq, self.tz, self.sod = kind, freq, tz, tuple(sod)
        self.L, self.R = list(bounds_l), list(bounds_r)
        self.children = children
        amp = dict(amp or {})
        if children is None:
            self.cols = cols
            if kind == "C" and "gq" not in cols:
                cols["gq"] = np.abs(cols["q"])
        else:
            self.cols = aggregate(kind, [c.cols for c in children.values()])
            for k in COLS[kind]:
                amp[k] = max(amp.get(k, 0.0), sum(c.amp[k] for c in children.values()))
        # amp: magnitude of the numbers that went into each column, as scale for rounding noise
        for k in COLS[kind]:
            v = self.cols[k][np.isfinite(self.cols[k])]
            amp[k] = max(amp.get(k, 0.0), float(np.abs(v).max()) if v.size else 0.0)
        self.amp = amp

    @property
    def hours(self):
        return (np.array(self.R) - np.array(self.L)) / 3600.0

    @property
    def nested(self):
        return self.children is not None

    def like(self, cols=None, children=None, kind=None, L=None, R=None, freq=None, amp=None):
        return M(kind or self.kind, freq or self.freq, self.tz, self.sod, self.L if L is None else L,
                 self.R if R is None else R, cols, children, self.amp if amp is None else amp)

    # -- selection
    def pick(self, keep):  # keep: list of positions
        keep = list(keep)
        L, R = [self.L[j] for j in keep], [self.R[j] for j in keep]
        if self.nested:
            return self.like(children={n: c.pick(keep) for n, c in self.children.items()}, L=L, R=R)
        return self.like(cols={k: v[keep] for k, v in self.cols.items()}, L=L, R=R)

    def restrict(self, lefts):
        s = set(lefts)
        return self.pick([j for j, l in enumerate(self.L) if l in s])

    def flat(self):
        return self.like(cols={k: v.copy() for k, v in self.cols.items()}) if self.nested else self

    def part(self, kind):  # volume/price/revenue of a complete line
        if self.kind == kind:
            return self
        if self.nested and kind != "P":
            return self.like(kind=kind, children={n: c.part(kind) for n, c in self.children.items()})
        return self.like(kind=kind, cols={k: self.cols[k] for k in COLS[kind]})


def div(a, b):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.asarray(a, float) / np.asarray(b, float)


def price(r, q):
    """r/q where determined; nan where the volume is zero."""
    return np.where(q != 0, div(r, q), np.nan)


def aggregate(kind, colsets):
    if kind == "C":
        w = sum(c["w"] for c in colsets)
        q = sum(c["q"] for c in colsets)
        r = sum(c["r"] for c in colsets)
        gq = sum(c["gq"] for c in colsets)
        return {"w": w, "q": q, "p": ill(r, q, gq), "r": r, "gq": gq}
    return {k: sum(c[k] for c in colsets) for k in COLS[kind]}


def ill(r, q, gross):
    """r/q, but nan (not compared) where q is only rounding noise compared to its gross terms."""
    return np.where(np.abs(q) > 1e-7 * gross, price(r, q), np.nan)


# ---- descriptors -> model and object


@st.composite
def leaf(draw, kind, spec, sign="any"):
    d = {"k": kind, "i": spec}
    if kind == "V":
        d["g"] = draw(st.sampled_from(["w", "q"]))
        d["v"] = [draw(gen.vals(sign))]
    elif kind in "PR":
        d["g"] = kind.lower()
        d["v"] = [draw(gen.vals(sign))]
    else:
        d["g"] = draw(st.sampled_from(["wp", "qp", "qr", "wr", "pr"]))
        if d["g"] in ("qr", "wr"):
            d["v"] = [draw(gen.vals("nz" if sign == "any" else "pos")), draw(gen.vals("any" if sign == "any" else sign))]
        elif d["g"] == "pr":
            d["v"] = [draw(gen.vals("nz" if sign == "any" else "pos")), draw(gen.vals("any" if sign == "any" else sign))]
        else:
            d["v"] = [draw(gen.vals(sign)), draw(gen.vals("any" if sign == "any" else sign))]
    return d


NAMES = ["A", "B", "C", "D", "south", "Sp ot", "2"]


@st.composite
def line(draw, spec, kind=None, depth=2, shift=0, sign="any", nested=None, minkids=1):
    """Line descriptor on the span `spec`; with shift>0 children may cover spans shifted by up to `shift` units.
    nested: None (either), True, False."""
    if kind is None:
        kind = draw(st.sampled_from(KINDS))
    if nested is None:
        nested = depth > 0 and draw(st.integers(0, 2)) == 2
    if nested and depth > 0:
        names = draw(st.lists(st.sampled_from(NAMES), min_size=minkids, max_size=3, unique=True))
        ch = []
        for n in names:
            s = spec
            if shift:
                s = gen.sub_spec(spec, draw(st.integers(-shift, shift)), spec["n"] + draw(st.integers(0, shift)))
            ch.append([n, draw(line(s, kind, depth - 1, 0, sign))])
        return {"k": kind, "ch": ch}
    return draw(leaf(kind, spec, sign))


def model(d) -> M:
    if "ch" in d:
        kids = {n: model(c) for n, c in d["ch"]}
        common = set.intersection(*[set(c.L) for c in kids.values()])
        kids = {n: c.restrict(common) for n, c in kids.items()}
        first = next(iter(kids.values()))
        return M(d["k"], first.freq, first.tz, first.sod, first.L, first.R, children=kids)
    b = cal.bounds(d["i"])
    n = len(b) - 1
    h = (np.array(b[1:]) - np.array(b[:-1])) / 3600.0
    vs = [gen.expand(v, n) for v in d["v"]]
    g, cols = d["g"], {}
    for key, v in zip(g, vs):
        cols[key] = v
    if "w" in cols:
        cols["q"] = cols["w"] * h
    elif "q" in cols:
        cols["w"] = cols["q"] / h
    if d["k"] == "C":
        if g == "pr":
            cols["q"] = div(cols["r"], cols["p"])
            cols["w"] = cols["q"] / h
        elif "p" in g:
            cols["r"] = cols["p"] * cols["q"]
        else:
            cols["p"] = div(cols["r"], cols["q"])
    return M(d["k"], d["i"]["freq"], d["i"]["tz"], d["i"]["sod"], b[:-1], b[1:], cols={k: cols[k] for k in COLS[d["k"]]})


def raw(d):
    """The user's input for this descriptor: (nested) dict of float series under dimension names."""
    if "ch" in d:
        return {n: raw(c) for n, c in d["ch"]}
    i = gen.build_index(d["i"])
    return {key: gen.pd.Series(gen.expand(v, len(i)), i) for key, v in zip(d["g"], d["v"])}


def build(d):
    import portfolyo as pf
    return pf.PfLine(raw(d))


def leaves(d):
    return [x for _, c in d["ch"] for x in leaves(c)] if "ch" in d else [d]


# ---- operations


def common(a: M, b: M):
    s = set(b.L)
    return [l for l in a.L if l in s]


def add(a: M, b: M) -> M:
    if a.nested != b.nested:
        a, b = a.flat(), b.flat()
    L = common(a, b)
    a, b = a.restrict(L), b.restrict(L)
    if a.nested:
        kids = {}
        for n in list(a.children) + [x for x in b.children if x not in a.children]:
            if n in a.children and n in b.children:
                kids[n] = add(a.children[n], b.children[n])
            else:
                kids[n] = a.children.get(n) or b.children[n]
        return a.like(children=kids)
    x, y = a.cols, b.cols
    amp = {k: a.amp[k] + b.amp[k] for k in COLS[a.kind]}
    if a.kind != "C":
        return a.like(cols={k: x[k] + y[k] for k in x}, amp=amp)
    q, r, gq = x["q"] + y["q"], x["r"] + y["r"], x["gq"] + y["gq"]
    p = ill(r, q, gq)
    p = np.where((x["p"] == y["p"]) & (q == 0), x["p"], p)
    return a.like(cols={"w": x["w"] + y["w"], "q": q, "p": p, "r": r, "gq": gq}, amp=amp)


def scale(a: M, f) -> M:
    f = np.asarray(f, float) * np.ones(len(a.L))
    if a.nested:
        return a.like(children={n: scale(c, f) for n, c in a.children.items()})
    amp = {k: v * max(1.0, float(np.abs(f).max()) if f.size else 0.0) for k, v in a.amp.items()}
    return a.like(cols={k: (v if (a.kind == "C" and k == "p") else v * np.abs(f) if k == "gq" else v * f)
                        for k, v in a.cols.items()}, amp=amp)


def targets(a: M, freq):
    """Full target periods: list of (left, right, positions)."""
    groups = {}
    for j, l in enumerate(a.L):
        groups.setdefault(cal.period_of(l, freq, a.tz, a.sod), []).append(j)
    return [(l, r, js) for (l, r), js in sorted(groups.items()) if l >= a.L[0] and r <= a.R[-1]]


def downsample(a: M, freq) -> M | None:
    t = targets(a, freq)
    if not t:
        return None
    L, R = [x[0] for x in t], [x[1] for x in t]
    if a.nested:
        return a.like(children={n: downsample(c, freq) for n, c in a.children.items()}, L=L, R=R, freq=freq)
    h = a.hours

    def tot(v):
        return np.array([float(np.sum(v[js])) for _, _, js in t])
    H = np.array([(r - l) / 3600 for l, r, _ in t])
    c = a.cols
    if a.kind == "P":
        cols = {"p": tot(c["p"] * h) / H}
    elif a.kind == "R":
        cols = {"r": tot(c["r"])}
    else:
        cols = {"q": tot(c["q"])}
        cols["w"] = cols["q"] / H
        if a.kind == "C":
            cols["r"], cols["gq"] = tot(c["r"]), tot(c["gq"])
            cols["p"] = ill(cols["r"], cols["q"], cols["gq"])
    return a.like(cols=cols, L=L, R=R, freq=freq)


def upsample(a: M, freq) -> M:
    if a.nested:
        kids = {n: upsample(c, freq) for n, c in a.children.items()}
        k = next(iter(kids.values()))
        return a.like(children=kids, L=k.L, R=k.R, freq=freq)
    L, R, pos = [], [], []
    for j, (l, r) in enumerate(zip(a.L, a.R)):
        x = l
        while x < r:
            y = cal.period_of(x, freq, a.tz, a.sod)[1]
            L.append(x), R.append(y), pos.append(j)
            x = y
    pos = np.array(pos)
    share = ((np.array(R) - np.array(L)) / 3600.0) / a.hours[pos]
    cols = {k: (v[pos] if k in "wp" else v[pos] * share) for k, v in a.cols.items()}
    if a.kind == "C":
        cols["p"] = np.where(cols["q"] == 0, np.nan, cols["p"])  # price of no volume: not determined
    return a.like(cols=cols, L=L, R=R, freq=freq)


def undetermined(a: M) -> M:
    """Same, but the price is not determined (not compared) where there is no volume."""
    if a.kind != "C":
        return a
    if a.nested:
        return a.like(children={n: undetermined(c) for n, c in a.children.items()})
    return a.like(cols={**a.cols, "p": np.where(a.cols["q"] == 0, np.nan, a.cols["p"])})


def reindex(a: M, L, R) -> M:
    if a.nested:
        return a.like(children={n: reindex(c, L, R) for n, c in a.children.items()}, L=L, R=R)
    pos = {l: j for j, l in enumerate(a.L)}
    cols = {k: np.array([v[pos[l]] if l in pos else 0.0 for l in L]) for k, v in a.cols.items()}
    return undetermined(a.like(cols=cols, L=list(L), R=list(R)))


# ---- comparison


def kind_of(pfl):
    import portfolyo as pf
    return {pf.Kind.VOLUME: "V", pf.Kind.PRICE: "P", pf.Kind.REVENUE: "R", pf.Kind.COMPLETE: "C"}[pfl.kind]


def is_nested(pfl):
    import portfolyo as pf
    return pfl.structure is pf.Structure.NESTED


def check(pfl, m: M, what="", rtol=1e-8, order=False, mags=None):
    """Assert that the portfolio line equals the model (recursively)."""
    import portfolyo as pf
    assert isinstance(pfl, pf.PfLine), f"{what}: got {type(pfl).__name__} instead of a portfolio line"
    assert kind_of(pfl) == m.kind, f"{what}: kind {pfl.kind}, expected {m.kind}"
    assert is_nested(pfl) == m.nested, f"{what}: structure {pfl.structure}, expected {'nested' if m.nested else 'flat'}"
    same_index(pfl.index, m.L, m.freq, m.tz, what)
    for k in COLS[m.kind]:
        got, exp = mag(getattr(pfl, k), k), m.cols[k]
        if k == "p":  # (not determined where nan)
            sel = ~np.isnan(exp)
            got, exp = got[sel], exp[sel]
        close(got, exp, f"{what}.{k}", rtol, atol=1e-9 * m.amp[k])
    if m.nested:
        assert set(pfl) == set(m.children), f"{what}: children {list(pfl)}, expected {list(m.children)}"
        if order:
            assert list(pfl) == list(m.children), f"{what}: child order {list(pfl)}, expected {list(m.children)}"
        for n, c in m.children.items():
            check(pfl[n], c, f"{what}[{n}]", rtol, order)


def of(pfl) -> M:
    """Model with the data the line itself reports (for relations between reported data)."""
    from .gen import epochs
    i = pfl.index
    L = epochs(i)
    R = epochs_right(pfl)
    sod = (i[0].hour, i[0].minute)
    kw = dict(kind=kind_of(pfl), freq=i.freqstr, tz=None if i.tz is None else str(i.tz), sod=sod, bounds_l=L, bounds_r=R)
    if is_nested(pfl):
        return M(**kw, children={n: of(c) for n, c in pfl.items()})
    return M(**kw, cols={k: mag(getattr(pfl, k), k) for k in COLS[kw["kind"]]})


def epochs_right(pfl):
    i = pfl.index
    L = gen.epochs(i)
    tz = None if i.tz is None else str(i.tz)
    sod = (i[0].hour, i[0].minute)
    if len(L) > 1:
        return L[1:] + [cal.period_of(L[-1], i.freqstr, tz, sod)[1]]
    return [cal.period_of(L[0], i.freqstr, tz, sod)[1]]
