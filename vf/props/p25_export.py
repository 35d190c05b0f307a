"""P25: exported and printed data."""
import contextlib, io, os, re
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen, model, pfs as P
from ..cmp import close, mag, same_index
from ..core import Sub
from .p04_immutability import snap

NM = {"15min": 1, "h": 2, "D": 15, "MS": 14, "QS": 8, "YS": 5}
FREQS = ["15min", "h", "D", "D", "MS", "MS", "QS", "YS", "QS-FEB", "YS-APR"]
COLS = [None, None, None, "w", "q", "p", "r", "wq", "qp", "rw", "wqpr", "pqr", ["q"], ["w", "r"], ["p", "x"], ["r", "q", "w", "p"], "", "xq"]


@st.composite
def trees(draw, spec, kind=None, depth=3):
    d = draw(model.line(spec, kind, depth=depth))
    if draw(st.integers(0, 4)) == 0 and d["k"] != "C":  # with missing values
        for x in model.leaves(d)[:1]:
            x["v"][0]["pool"].append(float("nan"))
    return d


@st.composite
def lines(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, long=40))
    return {"d": draw(trees(spec)), "cols": draw(st.sampled_from(COLS)), "units": draw(st.booleans()), "lev": draw(st.sampled_from([-1, -1, 0, 1, 2, 3, None])),
            "pos": draw(st.booleans())}


def expected(pfl, cols, lev):
    """{path of names + column: values}"""
    import portfolyo as pf
    want = [c for c in "wqpr" if not cols or c in cols]
    out = {}

    def walk(x, path, lev):
        for c in want:
            if c in x.kind.available:
                out[path + (c,)] = mag(getattr(x, c), c)
        if x.structure is pf.Structure.NESTED and lev != 0:
            for n, ch in x.items():
                walk(ch, path + (n,), lev - 1)
    walk(pfl, (), lev)
    return out


def key(c):
    return tuple(x for x in (c if isinstance(c, tuple) else (c,)) if x != "")


def compare(df, exp, index, units, what):
    keys = [key(c) for c in df.columns]
    assert len(set(keys)) == len(keys) and set(keys) == set(exp), f"{what}: columns {sorted(keys)}, expected {sorted(exp)}"
    for c, k in zip(df.columns, keys):  # blanks, if any, come last
        assert (c if isinstance(c, tuple) else (c,))[:len(k)] == k, f"{what}: header {c} instead of {k}"
    if not exp:
        return
    same_index(df.index, gen.epochs(index), index.freq, index.tz, what)
    for j, k in enumerate(keys):
        s = df.iloc[:, j]
        assert hasattr(s, "pint") == units or not units, f"{what} {k}: no unit"
        if not units:
            assert s.dtype.kind == "f", f"{what} {k}: dtype {s.dtype} instead of float"
        close(mag(s, k[-1] if units else None), exp[k], f"{what} {k}")


def check_lines(case, ctx):
    import portfolyo as pf
    d = case["d"]
    m = model.model(d)
    pfl = model.build(d)
    model.check(pfl, m, "line")  # what is exported
    before = snap(pfl)
    nested = "ch" in d
    kw = {}
    if nested and case["lev"] is not None:
        kw["childlevels"] = case["lev"]
    cols = case["cols"]
    df = pfl.dataframe(cols, case["units"], **kw) if case["pos"] else pfl.dataframe(cols=cols, has_units=case["units"], **kw)
    lev = -1 if case["lev"] is None else case["lev"]
    exp = expected(pfl, cols, lev)
    compare(df, exp, pfl.index, case["units"], "dataframe")
    if cols is None:
        compare(pfl.dataframe(), expected(pfl, None, -1), pfl.index, True, "dataframe()")
        if not nested:
            compare(pfl.df, exp, pfl.index, True, "df")
    assert snap(pfl) == before, "export changed the line"
    ctx.label("nested" if nested else "flat", d["k"], "units" if case["units"] else "floats", f"levels {lev}" if nested else "", "all cols" if not cols else "some cols", "empty" if not exp else "")
    ctx.nt(len(exp) > 1)


@st.composite
def states(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM, long=40))
    return {"d": draw(P.state(spec)), "cols": draw(st.sampled_from(COLS)), "units": draw(st.booleans())}


def state_parts(s):
    return {"offtakevolume": (s.offtakevolume, -1), "pnl_cost": (s.pnl_cost, 0), "sourced": (s.sourced, -1), "unsourced": (s.unsourced, -1)}


def check_states(case, ctx):
    s = P.build(case["d"])
    before = snap(s)
    cols = case["cols"]
    df = s.dataframe(cols, has_units=case["units"])
    exp = {}
    for n, (x, lev) in state_parts(s).items():
        exp.update({(n,) + k: v for k, v in expected(x, cols, lev).items()})
    compare(df, exp, s.index, case["units"], "dataframe of state")
    assert snap(s) == before, "export changed the state"
    ctx.label("nested" if any("ch" in x for x in case["d"].values()) else "flat", "units" if case["units"] else "floats", "all cols" if not cols else "some cols")
    ctx.nt(len(exp) > 3)


# -- excel


@st.composite
def excels(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax=NM))
    what = draw(st.sampled_from(["line", "state"]))
    return {"what": what, "d": draw(P.state(spec)) if what == "state" else draw(trees(spec)), "kw": draw(st.sampled_from([{}, {}, {"sheet_name": "data"}, {"startrow": 3}, {"na_rep": "missing"}]))}


def check_excels(case, ctx):
    import openpyxl
    obj = P.build(case["d"]) if case["what"] == "state" else model.build(case["d"])
    exp = {}
    if case["what"] == "state":
        for n, (x, lev) in state_parts(obj).items():
            exp.update({(n,) + k: v for k, v in expected(x, None, lev).items()})
    else:
        exp = expected(obj, None, -1)
    before = snap(obj)
    path = os.path.join(os.environ["TMPDIR"], f"p25-{os.getpid()}.xlsx")
    kw = case["kw"]
    obj.to_excel(path, **kw)
    assert snap(obj) == before, "export changed the object"
    wb = openpyxl.load_workbook(path)
    os.unlink(path)
    assert wb.sheetnames == [kw.get("sheet_name", "Sheet1")], f"sheets {wb.sheetnames} with {kw}"
    rows = [list(r) for r in wb.active.iter_rows(values_only=True)]
    if "startrow" in kw:
        assert all(v is None for r in rows[:kw["startrow"]] for v in r), "data above the start row"
        rows = rows[kw["startrow"]:]
    # header rows: those before the first timestamp
    first = next(j for j, r in enumerate(rows) if hasattr(r[0], "year"))
    head, body = rows[:first], rows[first:]
    body = [r for r in body if r[0] is not None]
    wallclock = [cal.wall(e, None if obj.index.tz is None else str(obj.index.tz)) for e in gen.epochs(obj.index)]
    assert [r[0] for r in body] == wallclock, "timestamps in excel sheet"
    UN = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur"}
    got, up = {}, None
    for j in range(1, len(head[0])):
        h = []
        for row in head:
            v = row[j]
            k = j
            h.append(v)
        got[j] = h
    # merged cells of the header only hold their first cell: fill from the left, per level, within the same upper levels
    filled = {}
    for j in sorted(got):
        h = list(got[j])
        if j > 1:
            for lvl in range(len(h)):
                if h[lvl] is None and all(h[x] == filled[j - 1][x] for x in range(lvl)):
                    if merged(wb.active, lvl + 1 + kw.get("startrow", 0), j + 1):
                        h[lvl] = filled[j - 1][lvl]
        filled[j] = h
    seen = {}
    for j, h in filled.items():
        h = [x for x in h if x not in (None, "")]
        assert len(h) >= 2, f"header {h} of column {j}"
        *names, unit = h
        k = tuple(str(x) for x in names)
        seen[k] = (unit, [r[j] for r in body])
    assert set(seen) == set(tuple(map(str, k)) for k in exp), f"columns in excel sheet {sorted(seen)}, expected {sorted(exp)}"
    for k, v in exp.items():
        unit, vals = seen[tuple(map(str, k))]
        import portfolyo as pf
        assert pf.ureg.Unit(unit).dimensionality == pf.ureg.Unit(UN[k[-1]]).dimensionality, f"unit of {k} in excel sheet: {unit}"
        f = pf.Q_(1.0, unit).to(UN[k[-1]]).magnitude
        miss = [x is None or x == kw.get("na_rep") for x in vals]
        assert [bool(x) for x in np.isnan(v)] == miss, f"missing values of {k} in excel sheet"
        close([float("nan") if mi else float(x) * f for mi, x in zip(miss, vals)], v, f"values of {k} in excel sheet", rtol=1e-6)
    ctx.label(case["what"], str(kw), "nested" if any(len(k) > 1 for k in exp) else "flat")
    ctx.nt(len(exp) > 1 and len(body) > 1)


def merged(ws, row, col):
    return any(r.min_row <= row <= r.max_row and r.min_col <= col <= r.max_col for r in ws.merged_cells.ranges)


# -- text


FMT = {"w": "{:,.1f}", "q": "{:,.0f}", "p": "{:,.2f}", "r": "{:,.0f}"}


@st.composite
def prints(draw):
    spec = draw(gen.ispec(freqs=FREQS, nmax={**NM, "D": 40}))
    what = draw(st.sampled_from(["line", "line", "state"]))
    d = draw(P.state(spec)) if what == "state" else draw(trees(spec, depth=draw(st.sampled_from([0, 1, 2, 3, 3]))))
    if what == "line":
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 4, 7, 10]))):  # deeper
            d = {"k": d["k"], "ch": [["lvl", d]] + ([["side", {**model.leaves(d)[0]}]] if draw(st.booleans()) else [])}
    return {"what": what, "d": d, "flatten": draw(st.booleans()), "num": draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 10, 20, 1000])), "color": draw(st.booleans()),
            "repr": draw(st.integers(0, 3)) == 0}


ANSI = re.compile(r"\x1b\[[0-9;]*m")
STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( [+-]\d{4})?")


def shown(x, cols, num):
    """Rows shown for a node: text without blanks per timestamp, '..' for what is left out."""
    tz = x.index.tz
    out = []
    ts = [t.strftime("%Y-%m-%d %H:%M:%S %z").strip() for t in x.index]
    vals = {c: mag(getattr(x, c), c) for c in cols}
    for j, t in enumerate(ts):
        out.append((t, ["" if np.isnan(vals[c][j]) else FMT[c].format(vals[c][j]).replace(",", "") for c in cols]))
    return out


def rows_of(text):
    """All table rows in the text: (stamp, rest without blanks)."""
    out = []
    for l in text.split("\n"):
        m = STAMP.search(l)
        if m and not l.lstrip().startswith(". "):
            out.append((m.group(0), l[m.end():].replace(" ", "")))
    return out


def check_prints(case, ctx):
    import portfolyo as pf
    state = case["what"] == "state"
    obj = P.build(case["d"]) if state else model.build(case["d"])
    before = snap(obj)
    num, flat = case["num"], case["flatten"]
    if case["repr"]:
        text, num, flat = repr(obj), 5 if state else 20, True
        assert text == str(obj)
        assert not ANSI.search(text), "repr contains control codes"
    else:
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            r = obj.print(num_of_ts=num, color=case["color"]) if state else obj.print(flat, num, case["color"])
        assert r is None
        text = b.getvalue()
        if not case["color"]:
            assert not ANSI.search(text), "control codes although without color"
        text = ANSI.sub("", text)
    assert snap(obj) == before, "printing changed the object"
    # nodes in the order in which they are shown; an only child is not repeated
    nodes, names = [], []

    def walk(name, x, cols, depth, only):
        names.append(name)
        if not (only and depth > 0):
            nodes.append((x, cols))
        if x.structure is pf.Structure.NESTED:
            for n, c in x.items():
                walk(n, c, cols, depth + 1, len(x) == 1)
    if state:
        walk("offtake", obj.offtakevolume, "wq", 0, False)
        walk("pnl_cost", obj.pnl_cost, "wqpr", 0, False)
    elif flat:
        nodes.append((obj, obj.kind.available))
    else:
        walk("", obj, obj.kind.available, 0, False)
    got = rows_of(text)
    n = len(obj.index)
    full = n <= num
    # what must be shown: everything if it fits; else the first and last ones, at most `num` rows (incl. that for what is left out)
    exp = [(x, cols, shown(x, cols, num)) for x, cols in nodes]
    if full:
        want = [(t, "".join(v)) for _, _, rows in exp for t, v in rows]
        assert got == want, first_diff(got, want)
    else:
        per = len(got) // max(1, len(nodes))
        assert per * len(nodes) == len(got), f"{len(got)} rows for {len(nodes)} lines"
        assert per <= max(0, num - 1) and per >= num - 1, f"{per} of {n} timestamps shown per line, expected {num - 1}"
        for j, (_, _, rows) in enumerate(exp):
            block = got[j * per:(j + 1) * per]
            rr = [(t, "".join(v)) for t, v in rows]
            a = per - per // 2
            ok = any(block == rr[:a] + (rr[-z:] if z else []) for a in range(per + 1) for z in (per - a,))
            assert ok, f"rows shown for line {j} are not its first and last ones: {block[:3]}.."
    for n_ in names:
        assert n_ in text, f"name {n_!r} not in printed text"
    head = text.split("\n")[:6]
    assert any(str(obj.index[0]) in l for l in head), "start not in printed text"
    end = obj.end if not state else obj.offtakevolume.end
    assert any(str(end) in l for l in head), "end not in printed text"
    assert any(f"({n} datapoints)" in l for l in head), "number of datapoints not in printed text"
    depth = depth_of(case["d"]) if not state else 1
    ctx.label(case["what"], "repr" if case["repr"] else "print", "full" if full else "shortened", f"num {num}", "deep" if depth > 6 else "shallow")
    ctx.nt(len(nodes) > 1 or not full)


def first_diff(got, want):
    for j, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f"row {j} shows {a}, expected {b}"
    return f"{len(got)} rows shown, expected {len(want)}"


def depth_of(d):
    return 1 + max(depth_of(c) for _, c in d["ch"]) if "ch" in d else 0


SUBS = [
    Sub("line", lines, check_lines, 300, 9000, rule="dataframe() of lines of any kind and depth, with column selection (incl. unavailable and unknown ones), child levels, units or floats. "
        "Non-trivial: more than one column."),
    Sub("state", states, check_states, 90, 2500, rule="dataframe() of states: offtake, cost, sourced and unsourced with their children. Non-trivial: more than 3 columns."),
    Sub("excel", excels, check_excels, 80, 1500, rule="to_excel() read back cell by cell with openpyxl (headers, units, wall-clock stamps, values, missing values, keyword arguments). "
        "Non-trivial: more than one column and row."),
    Sub("text", prints, check_prints, 220, 6000, rule="print() and repr() of lines (up to 13 levels) and states: stamps and values of every row of every node, names, start and end. "
        "Non-trivial: more than one node, or shortened."),
]
