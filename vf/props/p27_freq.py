"""P27: frequencies are ordered, validated and recognised."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen
from ..core import Sub, must_raise
from ..cmp import same_index

MON = cal.MONTHS
FIX = ["15min", "h", "D", "MS"]
QS = ["QS"] + [f"QS-{m}" for m in MON]
YS = ["YS"] + [f"YS-{m}" for m in MON]
ALL = FIX + QS + YS
DAYS = {"15min": 1 / 96, "h": 1 / 24, "D": 1, "MS": 30, "QS": 91, "YS": 365}


def freqs():
    return st.one_of(st.sampled_from(FIX), st.sampled_from(QS), st.sampled_from(YS), st.sampled_from(["QS", "YS"]))


def rel(f, g):
    """1: f longer (upsample), 0 same periods, -1 shorter, None: periods do not nest. From the start months of the periods only."""
    kf, kg = cal.kind(f), cal.kind(g)

    def starts(x):
        a = cal.anchor(x)
        return {(a - 1 + k) % 12 for k in range(0, 12, 3)} if cal.kind(x) == "QS" else {a - 1}
    if kf in ("QS", "YS") and kg in ("QS", "YS"):
        a, b = starts(f), starts(g)
        return 0 if a == b else 1 if a < b else -1 if a > b else None
    x = DAYS[kf] - DAYS[kg]
    return 0 if kf == kg else 1 if x > 0 else -1


def spelled(f, how):
    return pd.tseries.frequencies.to_offset(f) if how else f


@st.composite
def pairs(draw):
    return {"f": draw(freqs()), "g": draw(freqs()), "h": draw(freqs()), "o": [draw(st.booleans()), draw(st.booleans())], "more": draw(st.lists(freqs(), max_size=3))}


def check_pair(case, ctx):
    from portfolyo import tools
    F = tools.freq
    f, g, h = case["f"], case["g"], case["h"]
    r = rel(f, g)
    a, b = spelled(f, case["o"][0]), spelled(g, case["o"][1])
    if r is None:
        must_raise(lambda: F.up_or_down(a, b), (ValueError,), f"up_or_down({f}, {g})")
        must_raise(lambda: F.up_or_down(b, a), (ValueError,), f"up_or_down({g}, {f})")
    else:
        x, y = F.up_or_down(a, b), F.up_or_down(b, a)
        assert x == r, f"up_or_down({f}, {g}) is {x}, expected {r}"
        assert y == -r, f"up_or_down({g}, {f}) is {y}, expected {-r}"
    assert F.up_or_down(a, a) == 0
    kf, kg = cal.order(f), cal.order(g)
    # assertions on length
    for name, fn, ok in (("sufficiently_long", lambda: F.assert_freq_sufficiently_long(a, b), kf >= kg), ("sufficiently_long strict", lambda: F.assert_freq_sufficiently_long(a, b, True), kf > kg),
                         ("sufficiently_short", lambda: F.assert_freq_sufficiently_short(a, b), kf <= kg), ("sufficiently_short strict", lambda: F.assert_freq_sufficiently_short(a, b, strict=True), kf < kg),
                         ("equally_long", lambda: F.assert_freq_equally_long(a, b), kf == kg)):
        if ok:
            assert fn() is None
        else:
            must_raise(fn, (AssertionError,), f"{name}({f}, {g})")
    # choice of longest and shortest
    fs = [f, g, h] + case["more"]
    L, S = F.longest(*fs), F.shortest(*fs)
    assert L in fs and cal.order(L) == max(map(cal.order, fs)), f"longest of {fs} is {L}"
    assert S in fs and cal.order(S) == min(map(cal.order, fs)), f"shortest of {fs} is {S}"
    assert F.longest(f) == f == F.shortest(f)
    if r is not None and r != 0:
        assert F.longest(f, g) == (f if r > 0 else g) == F.longest(g, f) and F.shortest(f, g) == (g if r > 0 else f)
    # transitive
    if r is not None and rel(g, h) is not None and rel(f, h) is not None and r >= 0 and rel(g, h) >= 0:
        assert F.up_or_down(f, h) == max(r, rel(g, h)), f"{f} >= {g} >= {h}"
    ctx.label("does not nest" if r is None else ["same", "longer", "shorter"][r], cal.kind(f) + "/" + cal.kind(g))
    ctx.nt(f != g)


INVALID = ["30min", "5min", "1min", "min", "20min", "2h", "12h", "24h", "2D", "7D", "W", "W-MON", "ME", "QE", "YE", "QE-FEB", "BMS", "BQS", "BYS", "B", "s", "ms", "us", "2MS", "3MS", "2QS", "4QS", "2YS",
           "-1MS", "-1D", "2QS-FEB", "3YS-APR", "-1QS", "-1YS", "-15min", "SMS", "C", "bh", "45min", "-1h", "6h", "14D", "12MS", "5YS", "CBMS"]
SAME = {"15min": ["15min", "15T" if False else "15min"], "h": ["h", "1h", "60min" if False else "h"], "D": ["D", "1D"], "MS": ["MS", "1MS"], "QS": ["QS", "QS-JAN", "1QS"], "YS": ["YS", "YS-JAN", "1YS"]}


@st.composite
def validity(draw):
    ok = draw(st.booleans())
    f = draw(st.sampled_from(ALL + ["1h", "1D", "1MS", "1QS", "1YS", "QS-JAN"])) if ok else draw(st.sampled_from(INVALID))
    return {"ok": ok, "f": f, "o": draw(st.booleans()), "n": draw(st.integers(3, 6))}


def check_valid(case, ctx):
    from portfolyo import tools
    import portfolyo as pf
    f = spelled(case["f"], case["o"])
    if case["ok"]:
        assert tools.freq.assert_freq_valid(f) is None
    else:
        must_raise(lambda: tools.freq.assert_freq_valid(f), (ValueError,), f"frequency {case['f']}")
        # no portfolio line with such frequency
        i = pd.date_range("2024-01-01", periods=case["n"], freq=case["f"])
        must_raise(lambda: pf.PfLine({"p": pd.Series(1.0, i)}), (Exception,), f"portfolio line with frequency {case['f']}")
        must_raise(lambda: tools.freq.to_offset(f), (ValueError,), f"to_offset({case['f']})")
    ctx.label("valid" if case["ok"] else "invalid")
    ctx.nt()


@st.composite
def indices(draw):
    f = draw(st.sampled_from(FIX + QS + YS + ["D", "h", "15min", "MS"]))
    spec = draw(gen.ispec((f,), nmax={"15min": 3, "h": 5, "D": 200, "MS": 30, "QS": 14, "YS": 6}, nmin=1, years=(2010, 2028)))
    return {"i": spec, "g": draw(freqs()), "as": draw(st.sampled_from(["series", "df"])), "drop": draw(st.integers(0, 3)), "at": draw(st.integers(1, 10**6))}


def check_index(case, ctx):
    from portfolyo import tools
    F = tools.freq
    s = case["i"]
    f = s["freq"]
    i = gen.build_index(s)
    b = cal.bounds(s)
    j = pd.DatetimeIndex(list(i))  # without frequency
    tz = s["tz"]
    # each period's length tells the kind of frequency
    for x in sorted({int(r - l) for l, r in zip(b, b[1:])}):
        got = F.from_tdelta(pd.Timedelta(x, "s"))
        assert got == cal.kind(f), f"frequency from length {pd.Timedelta(x, 's')} of a {f} period is {got}"
    # recognition
    if j.freq is None and len(j) >= 3:
        got = F.guess_to_index(j)
        same_index(got, b[:-1], tz=tz, what="index with recognised frequency")
        assert got.freq is not None, f"frequency {f} of {len(j)} stamps from {j[0]} not recognised"
        assert cal.kind(got.freqstr) == cal.kind(f) and (cal.kind(f) in FIX or rel(got.freqstr, f) == 0), f"frequency {f} recognised as {got.freqstr}"
        assert j.freq is None, "index was changed"
        fr = pd.Series(np.arange(len(j)) * 1.0, j) if case["as"] == "series" else pd.DataFrame({"a": np.arange(len(j)) * 1.0}, j)
        out = F.guess_to_frame(fr)
        assert out.index.freq == got.freq and fr.index.freq is None and type(out) is type(fr)
        assert np.array_equal(np.asarray(out).ravel(), np.arange(len(j)))
    same = F.guess_to_index(i)
    assert same.freq == i.freq and same.equals(i)
    # forcing a frequency: possible exactly if the stamps are consecutive period starts of it
    fr = pd.Series(np.arange(len(j)) * 1.0, j)
    g = case["g"]
    out = F.set_to_frame(fr, f)
    assert out.index.freq == i.freq and out.index.equals(i) and fr.index.freq is None
    if len(j) >= 2:
        nested_same = cal.kind(g) == cal.kind(f) and (cal.kind(f) in FIX or rel(f, g) == 0) or (
            {cal.kind(g), cal.kind(f)} <= {"QS", "YS", "MS"} and fits(b[:-1], g, tz, s["sod"]))
        if not nested_same:
            must_raise(lambda: F.set_to_frame(fr, g), (ValueError,), f"frequency {g} on index with {f}")
    # index with a stamp missing has no frequency
    if len(j) >= 6 and case["drop"] == 0:
        k = 1 + case["at"] % (len(j) - 2)
        got = F.guess_to_index(j.delete(k))
        assert got.freq is None or cal.kind(got.freqstr) not in ALL or fits(gen.epochs(j.delete(k)), got.freqstr, tz, s["sod"]), f"{f} index with stamp {k} missing: frequency {got.freq}"
        must_raise(lambda: F.set_to_frame(fr.drop(fr.index[k]), f), (ValueError,), "frequency on index with gap")
        ctx.label("gap")
    # right-bound stamp of each period
    for l in {0, len(b) // 2 - 1 if len(b) > 2 else 0, len(b) - 2}:
        assert gen.epochs(pd.DatetimeIndex([i[l] + F.to_offset(f)])) == [b[l + 1]], f"{i[l]} + to_offset({f})"
    ctx.label(cal.kind(f), "dst" if cal.has_dst_change(s) else "no dst", "anchored" if "-" in f else "", f"n {min(len(j), 6)}")
    ctx.nt(len(j) >= 3)


def fits(L, g, tz, sod):
    """Are the stamps consecutive period starts of g?"""
    if g not in ALL:
        return True
    return all(cal.period_of(l, g, tz, tuple(sod)) == (l, r) for l, r in zip(L, L[1:])) and cal.period_of(L[-1], g, tz, tuple(sod))[0] == L[-1]


@st.composite
def deltas(draw):
    return {"s": draw(st.one_of(st.integers(1, 400 * 24 * 4).map(lambda x: x * 900), st.integers(-3600, 10**6), st.integers(1, 400).map(lambda d: d * 86400), st.integers(1, 400).map(lambda d: d * 86400 + 3600)))}


def check_delta(case, ctx):
    """A length that no period can have is refused; others give the one frequency with such periods."""
    from portfolyo import tools
    s = case["s"]
    h = s / 3600
    d = h / 24
    sure = "15min" if s == 900 else "h" if s == 3600 else "D" if 23 <= h <= 25 else "MS" if 28 <= round(d) <= 31 and abs(d - round(d)) < 0.05 else "QS" if 89 <= round(d) <= 92 and abs(d - round(d)) < 0.05 \
        else "YS" if round(d) in (365, 366) and abs(d - round(d)) < 0.05 else None
    near = (22 <= h <= 26) or 26 <= d <= 33 or 87 <= d <= 94 or 362 <= d <= 368
    t = pd.Timedelta(s, "s")
    if sure:
        assert tools.freq.from_tdelta(t) == sure, f"frequency from {t}"
        ctx.nt()
    elif not near:
        must_raise(lambda: tools.freq.from_tdelta(t), (ValueError,), f"frequency from {t}")
        ctx.nt()
    ctx.label(str(sure))


SUBS = [
    Sub("order", pairs, check_pair, 3000, rule="up_or_down, longest/shortest and the length assertions for pairs and lists of frequencies (text or offset), against the start months of their periods. "
        "Non-trivial: two different frequencies."),
    Sub("valid", validity, check_valid, 300, rule="documented frequencies are accepted, others refused, also as frequency of a portfolio line. All non-trivial."),
    Sub("index", indices, check_index, 800, rule="frequency recognised from an index or period length, forced onto an index, refused with gaps or other frequency. Non-trivial: 3 stamps or more."),
    Sub("length", deltas, check_delta, 1500, rule="frequency from a length: one that a period can have, or refused. Non-trivial: either."),
]
