"""Reference model of portfolio states: three reference lines (offtake V, market price P, sourced C)."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import cal, gen, model
from .cmp import close, mag, same_index
from .model import M

NM = {"15min": 2, "h": 4, "D": 40, "MS": 16, "QS": 8, "YS": 4}


@st.composite
def state(draw, spec, wide=True, sourced=None, sign="any", nested=None):
    """Descriptor; price and sourced may cover more than the offtake's delivery period."""
    def around():
        if not wide or draw(st.integers(0, 2)):
            return spec
        a = draw(st.integers(0, 2))
        return gen.sub_spec(spec, -a, spec["n"] + a + draw(st.integers(0, 2)))
    d = {"o": draw(model.line(spec, "V", depth=1, sign=sign, nested=nested)),
         "p": draw(model.line(around(), "P", depth=1, sign="any", nested=nested if nested is False else None))}
    if sourced is None:
        sourced = draw(st.integers(0, 5)) > 0
    if sourced:
        d["s"] = draw(model.line(around(), "C", depth=draw(st.sampled_from([1, 1, 2])), sign=sign, nested=nested))
    return d


class S:
    def __init__(self, off: M, pu: M, src: M):
        self.off, self.pu, self.src = off, pu, src

    @property
    def q(self):  # unsourced volume
        return -(self.off.cols["q"] + self.src.cols["q"])

    @property
    def r(self):  # unsourced value
        with np.errstate(invalid="ignore"):
            return self.q * self.pu.cols["p"]

    @property
    def aq(self):
        return self.off.amp["q"] + self.src.amp["q"]

    @property
    def ar(self):
        v = self.pu.cols["p"]
        v = v[np.isfinite(v)]
        return self.aq * (np.abs(v).max() if v.size else 0) + self.src.amp["r"]


def zero_line(m: M) -> M:
    z = np.zeros(len(m.L))
    return m.like(kind="C", cols={"w": z, "q": z, "p": z * np.nan, "r": z}, amp={}) if not m.nested else zero_line(m.flat())


def model_of(d) -> S:
    off = model.model(d["o"])
    pu = model.model(d["p"]).restrict(off.L)
    src = model.model(d["s"]).restrict(off.L) if "s" in d else zero_line(off)
    return S(off, pu, src)


def build(d):
    import portfolyo as pf
    return pf.PfState(model.build(d["o"]), model.build(d["p"]), model.build(d["s"]) if "s" in d else None)


def check_parts(pfs, s: S, what="", rtol=1e-8):
    """The three stored parts equal the model."""
    import portfolyo as pf
    assert isinstance(pfs, pf.PfState), f"{what}: got {type(pfs).__name__}"
    model.check(pfs.offtakevolume, s.off, f"{what} offtake", rtol)
    model.check(pfs.sourced, s.src, f"{what} sourced", rtol)
    p, e = mag(pfs.unsourcedprice.p, "p"), s.pu.cols["p"]
    same_index(pfs.unsourcedprice.index, s.off.L, s.off.freq, s.off.tz, f"{what} unsourcedprice")
    ok = ~np.isnan(e)
    close(p[ok], e[ok], f"{what} unsourcedprice", rtol, atol=1e-9 * s.pu.amp["p"])


def balance(pfs, what=""):
    """All accounting relations of P16, between the data that the state itself reports. Returns number of comparable
    positions."""
    L, freq, tz = gen.epochs(pfs.index), pfs.index.freq, pfs.index.tz
    off, src, uns, net, cost = pfs.offtake, pfs.sourced, pfs.unsourced, pfs.netposition, pfs.pnl_cost
    up = pfs.unsourcedprice
    for n, x in {"offtake": off, "sourced": src, "unsourced": uns, "netposition": net, "pnl_cost": cost, "unsourcedprice": up}.items():
        same_index(x.index, L, freq, tz, f"{what} {n}")
    oq, sq, uq = mag(off.q, "q"), mag(src.q, "q"), mag(uns.q, "q")
    ow, sw, uw = mag(off.w, "w"), mag(src.w, "w"), mag(uns.w, "w")
    aq = float(np.nanmax(np.abs(np.concatenate([oq, sq, uq, [0]]))))
    aw = float(np.nanmax(np.abs(np.concatenate([ow, sw, uw, [0]]))))
    close(oq + sq + uq, 0 * oq, f"{what} offtake+sourced+unsourced volume", atol=1e-9 * aq)
    close(ow + sw + uw, 0 * ow, f"{what} offtake+sourced+unsourced power", atol=1e-9 * aw)
    pu = mag(up.p, "p")
    sr, ur = mag(src.r, "r"), mag(uns.r, "r")
    ok = np.isfinite(pu)
    ar = float(np.max(np.abs(np.concatenate([sr[np.isfinite(sr)], ur[np.isfinite(ur)], (uq * pu)[ok], (sq * pu)[ok], [0]]))))
    close(ur[ok], (uq * pu)[ok], f"{what} unsourced revenue vs volume x market price", atol=1e-9 * ar)
    k = ok & (uq != 0)
    close(mag(uns.p, "p")[k], pu[k], f"{what} unsourced price vs market price")
    close(mag(net.q, "q"), -uq, f"{what} net volume", atol=1e-9 * aq)
    close(mag(net.w, "w"), -uw, f"{what} net power", atol=1e-9 * aw)
    close(mag(net.r, "r")[ok], -ur[ok], f"{what} net revenue", atol=1e-9 * ar)
    close(mag(net.p, "p")[k], pu[k], f"{what} net price")
    cq, cr = mag(cost.q, "q"), mag(cost.r, "r")
    close(cq, -oq, f"{what} cost volume vs minus offtake", atol=1e-9 * aq)
    close(cr[ok], (sr + ur)[ok], f"{what} cost vs sourced+unsourced revenue", atol=1e-9 * ar)
    kk = ok & (np.abs(cq) > 1e-6 * aq)
    with np.errstate(divide="ignore", invalid="ignore"):
        cp = cr / cq
    if kk.any():
        close(mag(cost.p, "p")[kk], cp[kk], f"{what} cost price", atol=1e-9 * np.abs(cp[kk]).max())
    assert set(cost) == {"sourced", "unsourced"}, f"{what}: pnl_cost children {list(cost)}"
    close(mag(cost["sourced"].r, "r"), sr, f"{what} cost child sourced", atol=1e-9 * ar)
    close(mag(cost["sourced"].q, "q"), sq, f"{what} cost child sourced volume", atol=1e-9 * aq)
    close(mag(cost["unsourced"].r, "r")[ok], ur[ok], f"{what} cost child unsourced", atol=1e-9 * ar)
    close(mag(cost["unsourced"].q, "q"), uq, f"{what} cost child unsourced volume", atol=1e-9 * aq)
    # fractions
    sf, uf = mag(pfs.sourcedfraction), mag(pfs.unsourcedfraction)
    d = np.abs(oq) > 1e-6 * aq
    with np.errstate(divide="ignore", invalid="ignore"):
        close(sf[d], (-sq / oq)[d], f"{what} sourced fraction", atol=1e-9)
        close((sf + uf)[d], np.ones(int(d.sum())), f"{what} fractions add up to one", atol=1e-7)
        close(uf[d], (-uq / oq)[d], f"{what} unsourced fraction", atol=1e-6)
    # mark to market
    mtm = pfs.mtm_of_sourced()
    close(mag(mtm.r, "r")[ok], (sq * pu - sr)[ok], f"{what} mark-to-market", atol=1e-9 * ar)
    same_index(mtm.index, L, freq, tz, f"{what} mtm")
    return int(ok.sum())
