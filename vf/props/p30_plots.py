"""P30: plots draw the data of the object."""
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag
from ..core import Sub, must_raise

NM = {"15min": 1, "h": 2, "D": 35, "MS": 30, "QS": 20, "YS": 18}
FREQS = ["15min", "h", "D", "D", "MS", "MS", "QS", "QS-FEB", "QS-MAR", "YS", "YS-APR"]
UNIT = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "f": ""}
DECIMALS = {"w": 1, "q": 0, "p": 2, "r": 0, "f": 2}
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def axes():
    from matplotlib.figure import Figure
    return Figure().add_subplot()


def data(pfl, kind):
    """Column that belongs in the plot, and its values."""
    col = {"V": "w" if cal.order(freqname(pfl.index)) <= cal.order("D") else "q", "P": "p", "R": "r"}[kind]
    return col, mag(getattr(pfl, col), col)


def freqname(i):
    return i.freq.freqstr.split("-JAN")[0]


def spans(i):
    """Delivery periods in days since 1970, as matplotlib has them."""
    tz = None if i.tz is None else str(i.tz)
    sod = [i[0].hour, i[0].minute] if cal.order(freqname(i)) >= cal.order("D") else [0, 0]
    e = gen.epochs(i)
    if cal.order(freqname(i)) >= cal.order("D"):
        end = cal.period_of(e[-1], freqname(i), tz, sod)[1]
    else:
        end = e[-1] + (3600 if freqname(i) == "h" else 900)
    e = e + [end]
    return [(a / 86400, b / 86400) for a, b in zip(e, e[1:])]


def factor(ax, col):
    """From magnitude along the axis to default unit."""
    import portfolyo as pf
    u = ax.get_ylabel().replace("·", "*")
    return pf.Q_(1.0, u).to(UNIT[col]).magnitude if UNIT[col] else 1.0


def num(y):
    y = getattr(y, "magnitude", y)
    return np.asarray([getattr(v, "magnitude", v) for v in np.ravel(np.asarray(y, dtype=object))], float)


def polyline_at(xs, ys, x):
    """Values at which the polygon/polyline crosses the vertical line at x."""
    out = []
    for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if min(x0, x1) <= x <= max(x0, x1) and x0 != x1:
            out.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return out


def drawn(ax, categorical, per):
    """[(label, values per period)]: what was drawn, as functions of the period."""
    from matplotlib import cbook, collections, dates, container
    out = []
    if categorical:
        assert not ax.lines, "line in a plot with categories"
        for c in ax.containers:
            assert isinstance(c, container.BarContainer)
            got = np.full(per, np.nan)
            assert len(c.patches) == per, f"{len(c.patches)} bars for {per} periods"
            for p in c.patches:
                k = round(p.get_x() + p.get_width() / 2)
                assert abs(p.get_x() + p.get_width() / 2 - k) < 1e-6 and 0 <= k < per and 0 < p.get_width() <= 1, "bar lies elsewhere"
                assert abs(float(num(p.get_y())[0])) == 0, "bar does not start at 0"
                assert np.isnan(got[k]), f"two bars for period {k}"
                got[k] = num(p.get_height())[0]
            out.append((c.get_label(), got))
        for c in ax.collections:
            assert isinstance(c, collections.LineCollection)
            got, seen = np.full(per, np.nan), set()
            for s in c.get_segments():
                s = np.asarray(s)
                k = round(float(s[:, 0].mean()))
                assert abs(s[:, 0].mean() - k) < 1e-6 and 0 <= k < per and k not in seen and 0 < abs(s[1, 0] - s[0, 0]) <= 1, "horizontal line lies elsewhere"
                assert s[0, 1] == s[1, 1], "line is not horizontal"
                got[k] = s[0, 1]
                seen.add(k)
            assert len(seen) == per, f"horizontal lines for {len(seen)} of {per} periods"
            out.append((c.get_label(), got))
        return out
    assert not ax.patches, "bars in a plot with time axis"
    for c in ax.collections:  # areas
        pts = [np.asarray(p.vertices) for p in c.get_paths()]
        got = []
        for a, b in per:
            two = []
            for f in (0.1, 0.9):
                ys = [y for p in pts for y in polyline_at(p[:, 0], p[:, 1], a + f * (b - a))]
                assert ys, "area does not cover all periods"
                lo, hi = min(ys), max(ys)
                assert lo == 0 or hi == 0, f"area between {lo} and {hi}: not between 0 and the value"
                two.append(hi if lo == 0 else lo)
            assert two[0] == two[1], f"area is {two} within one period"
            got.append(two[0])
        xs = np.concatenate([p[:, 0] for p in pts])
        assert abs(xs.min() - per[0][0]) < 1e-6 and abs(xs.max() - per[-1][1]) < 1e-6, "area covers another time span"
        out.append((c.get_label(), np.array(got)))
    for c in ax.lines:  # steps
        x = dates.date2num(c.get_xdata(orig=True))
        y = num(c.get_ydata(orig=True))
        x, y = cbook.STEP_LOOKUP_MAP[c.get_drawstyle()](x, y)
        got = []
        for a, b in per:
            two = [v for f in (0.1, 0.9) for v in polyline_at(x, y, a + f * (b - a))]
            assert len(two) == 2, f"{len(two) / 2} values drawn in one period"
            assert two[0] == two[1] or abs(two[0] - two[1]) <= 1e-12 * max(map(abs, two)), f"line is at {two} within one period"
            got.append(two[0])
        assert abs(min(x) - per[0][0]) < 1e-6 and abs(max(x) - per[-1][1]) < 1e-6, "line covers another time span"
        out.append((c.get_label(), np.array(got)))
    return out


def check_labels(ax, i, col, vals, f, categorical, per, want):
    """Data labels: at the value of a period, showing that value."""
    from matplotlib import dates
    pos = {}
    for a in ax.texts:
        x, y = a.xy
        y = float(num(y)[0])
        if categorical:
            k = int(round(float(x)))
            assert abs(k - float(x)) < 1e-9 and 0 <= k < len(vals)
        else:
            x = float(dates.date2num(x))
            k = next((j for j, (b, e) in enumerate(per) if b < x < e), None)
            assert k is not None and abs(x - sum(per[k]) / 2) < 1e-6, "label is not at the centre of a period"
        assert k not in pos, "two labels for one period"
        v = vals[k]
        close([y * f], [v], f"height of label of period {k}", atol=1e-9)
        t = a.get_text()
        got = float(t.replace(" ", "").replace("%", ""))
        show = v / f * (100 if "%" in t else 1)
        d = DECIMALS[col] if "%" not in t else 0
        assert abs(got - show) <= 0.5000001 * 10**-d + 1e-9 * abs(show), f"label {t!r} at value {show}"
        pos[k] = t
    if want and len(vals) <= 15:
        assert len(pos) == len(vals), f"{len(pos)} labels for {len(vals)} periods"
    if not want:
        assert not pos, f"labels {pos} where none are wanted"


def check_ticks(ax, i):
    """Category labels name the delivery period they stand at."""
    n = len(i)
    xs, labels = ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]
    if not any(labels):  # x-axis shared with another plot, which has the labels
        assert any(t.get_text() for a in ax.figure.axes for t in a.get_xticklabels()), "no category labels at all"
        return
    assert 0 < len(xs) <= 15 and len(xs) == len(labels), f"{len(xs)} ticks"
    assert len(xs) == n or n > 15, f"{len(xs)} ticks for {n} periods"
    assert xs[0] == 0, "first period has no label"
    k0 = cal.kind(freqname(i))
    for x, t in zip(xs, labels):
        k = int(round(x))
        assert k == x and 0 <= k < n, f"tick at {x}"
        ts = i[k]
        parts = t.split("\n")
        if k0 == "YS":
            assert t == str(ts.year), f"label {t!r} for {ts}"
            continue
        name = MON[ts.month - 1] if k0 == "MS" else f"Q{(ts.month - 1) // 3 + 1}"
        assert parts[0] == name, f"label {t!r} for {ts}"
        year = parts[1] if len(parts) > 1 else ""
        assert year in ("", str(ts.year)), f"label {t!r} for {ts}"
        if k == 0 or (ts.month == 1):
            assert year == str(ts.year), f"label {t!r} for {ts}: no year"


def check_visible(ax, *values):
    lo, hi = ax.get_ylim()
    v = np.concatenate([x[np.isfinite(x)] for _, x in values] or [[]])
    if v.size:
        tol = 1e-4 * (hi - lo)  # (no margin around a bar that is hardly visible)
        assert lo - tol <= v.min() and v.max() <= hi + tol, f"values between {v.min()} and {v.max()}, but axis from {lo} to {hi}"


def check_axes(ax, pfl, kind, children, want_labels, what):
    col, vals = data(pfl, kind)
    i = pfl.index
    categorical = cal.order(freqname(i)) > cal.order("D")
    per = len(i) if categorical else spans(i)
    f = factor(ax, col)
    got = drawn(ax, categorical, per)
    exp = {None: vals}
    if children and "ested" in type(pfl).__name__:
        for n, c in pfl.items():
            exp[n] = data(c, kind)[1]
    named = [(n, v) for n, v in got if n in exp]
    rest = [(n, v) for n, v in got if n not in exp]
    assert len(rest) == 1 and len(named) == len(exp) - 1 and len(dict(named)) == len(named), f"{what}: drawn {[n for n, _ in got]}, expected the total and children {list(exp)[1:]}"
    close(rest[0][1] * f, vals, f"{what}: drawn values", atol=1e-12)
    for n, v in named:
        close(v * f, exp[n], f"{what}: drawn values of child {n}", atol=1e-12)
    if named:
        leg = ax.get_legend()
        assert leg is not None and {t.get_text() for t in leg.get_texts()} >= {n for n, _ in named}, f"{what}: legend"
    if want_labels is not None:
        check_labels(ax, i, col, vals, f, categorical, per if not categorical else None, want_labels)
    if categorical:
        check_ticks(ax, i)
    check_visible(ax, *got)
    return categorical


# -- lines


@st.composite
def lines(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, years=(2009, 2019)))
    return {"d": draw(model.line(spec, draw(st.sampled_from(["V", "P", "R", "C", "C"])), depth=2)), "children": draw(st.booleans()), "how": draw(st.sampled_from(["plot", "ax", "ax", "ax"])),
            "kind": draw(st.sampled_from(["V", "P", "R"])), "fmt": draw(st.sampled_from([None, None, "", "{:.3f}"]))}


def finite(pfl, kind):
    from portfolyo import PfLine
    if "ested" in type(pfl).__name__ and not all(finite(c, kind) for c in pfl.values()):
        return False
    return bool(np.isfinite(data(pfl, kind)[1]).all())


def check_lines(case, ctx):
    import portfolyo as pf
    from matplotlib import pyplot as plt
    d = case["d"]
    pfl = model.build(d)
    KIND = {"V": pf.Kind.VOLUME, "P": pf.Kind.PRICE, "R": pf.Kind.REVENUE, "C": pf.Kind.COMPLETE}
    kinds = ["V", "P", "R"] if d["k"] == "C" else [d["k"]]
    if not all(finite(pfl, k) for k in kinds):  # price of nothing
        ctx.label("undetermined")
        return
    if case["how"] == "plot":
        fig = pfl.plot(case["children"])
        plt.close("all")
        assert len(fig.axes) == len(kinds), f"{len(fig.axes)} axes"
        for ax, k in zip(fig.axes, kinds):
            cat = check_axes(ax, pfl, k, case["children"], True, f"plot, {k}")
    else:
        k = case["kind"] if d["k"] == "C" else d["k"]
        ax = axes()
        kw = {} if case["fmt"] is None else {"labelfmt": case["fmt"]}
        if case["fmt"] == "{:.3f}":
            kw["alpha"] = 0.5
        if d["k"] == "C":
            must_raise(lambda: pfl.plot_to_ax(axes(), kind=pf.Kind.COMPLETE), what="plot of complete line as such")
            must_raise(lambda: pfl.plot_to_ax(axes()), what="plot of complete line without kind")
        pfl.plot_to_ax(ax, case["children"], KIND[case["kind"]], **kw)
        cat = check_axes(ax, pfl, k, case["children"], case["fmt"] != "", f"plot_to_ax, {k}")
    ctx.label("categories" if cat else "time axis", d["k"], "children" if case["children"] and "ch" in d else "total only", case["how"], f"{spec_of(d)['freq']}", "many" if len(pfl.index) > 15 else "few", "" if case["fmt"] is None else "own label format")
    ctx.nt(len(pfl.index) > 1)


def spec_of(d):
    return d["i"] if "i" in d else spec_of(d["ch"][0][1] if isinstance(d["ch"], list) else next(iter(d["ch"].values())))


# -- two series in one plot


SAME = {"w": ["MW", "kW", "GW"], "q": ["MWh", "GWh", "kWh"], "p": ["Eur/MWh", "Eur/kWh", "ctEur/kWh"], "r": ["Eur", "kEur"], "f": ["", "percent"]}


@st.composite
def pairs(draw):
    a = draw(gen.ispec(freqs=FREQS, nmax=NM, years=(2009, 2019)))
    same = draw(st.sampled_from([True, True, True, False]))
    b = a if same else draw(gen.ispec(freqs=FREQS, nmax=NM, years=(2009, 2019)))
    c = draw(st.sampled_from("wqprf"))
    c2 = draw(st.sampled_from([c] * 12 + [*"wqprf"]))
    def fn(spec):
        good = ["bar", "hline"] if cal.order(spec["freq"]) > cal.order("D") else ["step", "area"]
        return draw(st.sampled_from(good * 4 + ["bar", "hline", "step", "area"]))
    return {"a": a, "b": b, "c": [c, c2], "u": [draw(st.sampled_from(SAME[c])), draw(st.sampled_from(SAME[c2]))], "v": [draw(gen.vals()), draw(gen.vals())], "fn": [fn(a), fn(b)], "fmt": draw(st.sampled_from(["", "{:.2f}"]))}


def check_pairs(case, ctx):
    import portfolyo as pf
    from portfolyo.tools import visualize as vis
    ax = axes()
    exp, first = [], None
    for j, spec in enumerate([case["a"], case["b"]]):
        i = gen.build_index(spec)
        c, u, fn = case["c"][j], case["u"][j], case["fn"][j]
        v = gen.expand(case["v"][j], len(i))
        try:
            s = pd.Series(v, i) if u == "" else pd.Series(v, i).astype(f"pint[{u}]")
        except Exception:  # unit unknown here
            u = ""
            s = pd.Series(v, i)
        before = s.copy(deep=True)
        cat = cal.order(spec["freq"]) > cal.order("D")
        do = lambda: getattr(vis, f"plot_timeseries_as_{fn}")(ax, s, labelfmt=case["fmt"])
        if cat != (fn in ("bar", "hline")):
            must_raise(do, what=f"{fn} of {spec['freq']}")
            ctx.label("refused: kind of axis")
            return
        if first and first[0] != i.freq:
            must_raise(do, what=f"{spec['freq']} on axis with {first[0]}")
            ctx.label("refused: frequency")
            return
        if first and first[1] != c:
            must_raise(do, what=f"{c} on axis with {first[1]}")
            ctx.label("refused: unit")
            return
        do()
        assert s.equals(before) and s.dtype == before.dtype, "series was changed"
        first = first or (i.freq, c)
        per = len(i) if cat else spans(i)
        exp.append((fn, per, v * (pf.Q_(1.0, u).to(UNIT[c]).magnitude if u else 1.0), i))
    if len(exp) == 2 and case["a"] != case["b"]:
        return
    f = factor(ax, c)
    got = drawn(ax, cat, exp[0][1])
    want = sorted(exp, key=lambda e: e[0] in ("hline", "step"))  # bars and areas are found first
    assert len(got) == len(want), f"drawn {len(got)} series of {len(want)}"
    for (n, g), (fn, _, v, _) in zip(got, want):
        close(g * f, v, f"{fn}: drawn values", atol=1e-12)
    check_visible(ax, *got)
    if case["fmt"] == "" and ax.texts:
        raise AssertionError("labels without format")
    if cat:
        check_ticks(ax, i)
    ctx.label("categories" if cat else "time axis", *(e[0] for e in exp), *case["u"])
    ctx.nt(len(exp) == 2 and len(i) > 1)


# -- states


@st.composite
def states(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, years=(2009, 2019)))
    d = draw(P.state(spec, sign=draw(st.sampled_from(["any", "pos"]))))
    if draw(st.booleans()):  # values in a narrow range
        for part in d.values():
            for leaf in model.leaves(part):
                for c, v in zip(leaf["g"], leaf["v"]):
                    v["pool"] = [200 + x / 64 for x in v["pool"]]
                    v["e"] = 0
    return {"d": d, "children": draw(st.booleans())}


def check_states(case, ctx):
    from matplotlib import pyplot as plt
    s = P.build(case["d"])
    ch = case["children"]
    parts = {"Offtake volume": (-1 * s.offtakevolume, "V", ch), "Sourced volume": (s.sourced, "V", ch), "Unsourced volume": (s.unsourced, "V", False),
             "Procurement price": (s.pnl_cost, "P", False), "Sourced price": (s.sourced, "P", ch), "Unsourced price": (s.unsourced, "P", False)}
    def kids(x, k, c):
        return [x] + (list(x.values()) if c and "ested" in type(x).__name__ else [])
    if not all(np.isfinite(data(y, k)[1]).all() for x, k, c in parts.values() for y in kids(x, k, c)):
        ctx.label("undetermined")
        return
    fig = s.plot(ch)
    plt.close("all")
    got = {ax.get_title(): ax for ax in fig.axes}
    assert set(got) == set(parts), f"titles {sorted(got)}"
    for t, (x, k, c) in parts.items():
        cat = check_axes(got[t], x, k, c, False, t)
    ctx.label("categories" if cat else "time axis", "children" if ch else "total only")
    ctx.nt(len(s.index) > 1)


@st.composite
def several(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, years=(2009, 2019)))
    n = draw(st.integers(1, 3))
    return {"ss": [draw(P.state(spec, sign="neg" if draw(st.integers(0, 1)) else "any")) for _ in range(n)], "names": draw(st.lists(st.sampled_from(["B2C", "north sea wind", "x", "A B"]), min_size=n, max_size=n, unique=True))}


def check_several(case, ctx):
    import portfolyo as pf
    from matplotlib import pyplot as plt
    ss = [P.build(d) for d in case["ss"]]
    for s in ss:
        with np.errstate(all="ignore"):
            if not np.isfinite(mag(s.pnl_cost.p)).all() or not np.isfinite(mag(s.sourcedfraction)).all():
                ctx.label("undetermined")
                return
    fig = pf.plot_pfstates(dict(zip(case["names"], ss)))
    plt.close("all")
    assert fig is not None and len(fig.axes) == 6 * len(ss), "figure with 6 axes per state"
    for j, (n, s) in enumerate(zip(case["names"], ss)):
        axs = fig.axes[6 * j:6 * j + 6]
        assert [t.get_text().split() for t in axs[0].texts] == [n.split()], "name of portfolio"
        i = s.index
        cat = cal.order(freqname(i)) > cal.order("D")
        per = len(i) if cat else spans(i)
        col = "q" if cat else "w"
        for ax, c, v in [(axs[1], col, -mag(getattr(s.offtakevolume, col), col)), (axs[2], "f", mag(s.sourcedfraction)), (axs[4], "p", mag(s.pnl_cost.p, "p"))]:
            got = drawn(ax, cat, per)
            assert len(got) == 1, f"{len(got)} series drawn for {n}"
            close(got[0][1] * factor(ax, c), v, f"{c} of {n}", atol=1e-12)
    ctx.label("categories" if cat else "time axis", f"{len(ss)} states")
    ctx.nt(len(ss) > 1)


SUBS = [Sub("line", lines, check_lines, 700, 12000, rule="lines of every kind and structure, drawn with plot() and plot_to_ax(): the drawn bars, steps, areas and horizontal lines are evaluated in every delivery period. Non-trivial: more than one period."),
        Sub("series", pairs, check_pairs, 500, 8000, rule="one or two series in various units on the same axes, including ones that do not belong there. Non-trivial: two series drawn, more than one period."),
        Sub("state", states, check_states, 160, 3000, rule="the six plots of a portfolio state. Non-trivial: more than one period."),
        Sub("several", several, check_several, 120, 2500, rule="plots of one to three states. Non-trivial: at least two states.")]
