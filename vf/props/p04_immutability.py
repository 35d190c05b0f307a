from hypothesis import strategies as st
import os
import numpy as np
from .. import cal, gen, model, pfs as P
from ..core import Sub

NM = {"15min": 2, "h": 3, "D": 62, "MS": 14, "QS": 8, "YS": 3}


def snap(o, seen=None):
    """Everything observable about an object, in a form that compares bytewise (nan equals nan)."""
    import pandas as pd
    import portfolyo as pf
    if isinstance(o, pf.PfLine):
        kids = [(k, snap(v)) for k, v in o.items()] if o.structure is pf.Structure.NESTED else None
        return ("line", str(o.kind), snap(o.index), [snap(getattr(o, c)) for c in o.kind.available], kids)
    if isinstance(o, pf.PfState):
        return ("state", snap(o.offtakevolume), snap(o.unsourcedprice), snap(o.sourced))
    if isinstance(o, pd.DataFrame):
        return ("df", snap(o.index), [repr(c) for c in o.columns], repr(o.columns.names), [snap(o.iloc[:, j]) for j in range(o.shape[1])])
    if isinstance(o, pd.Series):
        v = np.asarray(o.pint.m if hasattr(o, "pint") and str(o.dtype).startswith("pint") else o.values)
        b = v.astype(float).tobytes() if v.dtype.kind in "fiub" else repr(list(v))
        return ("ser", str(o.dtype), repr(o.name), snap(o.index), b)
    if isinstance(o, pd.DatetimeIndex):
        return ("idx", str(o.dtype), str(o.freq), repr(o.name), o.asi8.tobytes())
    if isinstance(o, pd.Index):
        return ("index", repr(list(o)))
    if isinstance(o, dict):
        return ("dict", [(repr(k), snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v) for v in o])
    return repr(o)


def stamps(e):
    i = e["idx"]
    n = len(i)
    days = [t for t in i if t.time() == i[0].time()]
    return days[len(days) // 3], days[-1]


def sub(e):
    import pandas as pd
    i = e["idx"]
    if i.freq == "h" or i.freq == "15min":
        return e["a"].slice[stamps(e)[0]:].index
    return i[len(i) // 3:]


# name -> function of the environment. Everything in the environment must be the same before and after.
def ops():
    import pandas as pd
    import portfolyo as pf
    from portfolyo import tools
    O = {}

    def op(f):
        O[f.__name__] = f
        return f

    for k in "abcvnmqprd":
        for name, f in {
            "create": lambda e, k: pf.PfLine(e[k]),
            "neg": lambda e, k: -e[k], "mul": lambda e, k: e[k] * 2.5, "div": lambda e, k: e[k] / 4, "abs": lambda e, k: bool(e[k]),
            "flatten": lambda e, k: e[k].flatten(), "asfreq": lambda e, k: e[k].asfreq(e["long"]),
            "asfreqshort": lambda e, k: e[k].slice[:stamps(e)[0]].asfreq(e["short"]), "slice": lambda e, k: e[k].slice[stamps(e)[0]:],
            "loc": lambda e, k: e[k].loc[stamps(e)[0]:stamps(e)[1]], "reindex": lambda e, k: e[k].reindex(sub(e)), "print": lambda e, k: str(e[k]),
            "export": lambda e, k: e[k].dataframe(has_units=False), "export2": lambda e, k: e[k].df.sum(), "volume": lambda e, k: e[k].volume * 2,
            "price": lambda e, k: e[k].price + e[k].price, "revenue": lambda e, k: e[k].revenue - e[k].revenue, "eq": lambda e, k: e[k] == e["a"],
            "addself": lambda e, k: e[k] + e[k], "subself": lambda e, k: e[k] - e[k], "po": lambda e, k: e[k].po(pf.germanpower_peakfn, "MS"),
            "hedge": lambda e, k: e[k].hedge_with(e["p"], "vol", None, "MS"), "mulser": lambda e, k: e[k] * e["nodim"], "mulf": lambda e, k: e["ser"] * e[k],
            "year": lambda e, k: pf.map_to_year(e[k], 2027, None), "excel": lambda e, k: e[k].to_excel(os.path.join(os.environ["TMPDIR"], f"x{os.getpid()}.xlsx")),
            "withchild": lambda e, k: pf.PfLine({"x": e[k], "y": e[k]}).set_child("x", e[k]), "addc": lambda e, k: e[k] + e["c"],
            "united": lambda e, k: e[k] | e["p"], "timesp": lambda e, k: e[k] * e["p"], "concat": lambda e, k: pf.concat([e[k].slice[:stamps(e)[0]], e[k].slice[stamps(e)[0]:]]),
            "intersection": lambda e, k: pf.intersection(e[k], e["b"]), "arith": lambda e, k: 3 * e[k] + e[k] * 0 - e[k] / 2,
        }.items():
            O[f"line_{name}_{k}"] = (lambda f, k: lambda e: f(e, k))(f, k)
    for k in "nm":
        for name, f in {
            "set": lambda e, k: e[k].set_child("new", e["c"]), "replace": lambda e, k: e[k].set_child(list(e[k])[0], e["c"]),
            "setraw": lambda e, k: e[k].set_child("new", e["dic"]), "drop": lambda e, k: e[k].drop_child(list(e[k])[0]),
            "child": lambda e, k: e[k][list(e[k])[0]] * 3, "items": lambda e, k: dict(e[k].items()).pop(list(e[k])[0]),
            "rebuild": lambda e, k: pf.PfLine({**e[k], "z": e["c"]}), "add": lambda e, k: e["n"] + e["m"], "sub": lambda e, k: e["n"] - e["m"],
        }.items():
            O[f"nested_{name}_{k}"] = (lambda f, k: lambda e: f(e, k))(f, k)
    for k in "st":
        for name, f in {
            "neg": lambda e, k: -e[k], "mul": lambda e, k: e[k] * 2, "mulser": lambda e, k: e[k] * e["ser"], "div": lambda e, k: e["s"] / e["t"],
            "add": lambda e, k: e["s"] + e["t"], "sub": lambda e, k: e[k] - e["t"], "asfreq": lambda e, k: e[k].asfreq(e["long"]),
            "slice": lambda e, k: e[k].slice[stamps(e)[0]:], "loc": lambda e, k: e[k].loc[stamps(e)[0]:], "print": lambda e, k: str(e[k]),
            "export": lambda e, k: e[k].dataframe(), "seto": lambda e, k: e[k].set_offtakevolume(e["v"]), "setp": lambda e, k: e[k].set_unsourcedprice(e["p"]),
            "sets": lambda e, k: e[k].set_sourced(e["n"]), "adds": lambda e, k: e[k].add_sourced(e["c"]), "hedge": lambda e, k: e[k].hedge_of_unsourced("vol", None, "MS"),
            "source": lambda e, k: e[k].source_unsourced("vol", None, "MS"), "mtm": lambda e, k: e[k].mtm_of_sourced(), "cost": lambda e, k: e[k].pnl_cost * 2,
            "net": lambda e, k: e[k].netposition, "frac": lambda e, k: e[k].unsourcedfraction, "eq": lambda e, k: e["s"] == e["t"],
            "new": lambda e, k: pf.PfState(e["v"], e["p"], e["c"]), "raw": lambda e, k: pf.PfState(e["dicw"], e["dicp"], e["dic"]),
            "fromseries": lambda e, k: pf.PfState.from_series(pu=e["pser"], wo=e["ser"], ws=e["user"], ps=e["pser"]),
            "concat": lambda e, k: pf.concat([e[k].slice[:stamps(e)[0]], e[k].slice[stamps(e)[0]:]]), "intersection": lambda e, k: pf.intersection(e[k], e["t"], e["a"]),
            "excel": lambda e, k: e[k].to_excel(os.path.join(os.environ["TMPDIR"], f"y{os.getpid()}.xlsx")),
            "swap": lambda e, k: pf.PfState(e[k].offtakevolume, e[k].unsourcedprice, e["t"].sourced),
        }.items():
            O[f"state_{name}_{k}"] = (lambda f, k: lambda e: f(e, k))(f, k)
    for name, f in {
        "create_df": lambda e: pf.PfLine(e["df"]), "create_udf": lambda e: pf.PfLine(e["udf"]), "create_user": lambda e: pf.PfLine(e["user"]),
        "create_dic": lambda e: pf.PfLine(e["dic"]), "create_nested": lambda e: pf.PfLine(e["ndic"]), "create_list": lambda e: pf.PfLine([e["user"], e["pser"]]),
        "create_mixed": lambda e: pf.PfLine({"q": e["ser"], "p": 4.0}), "add_raw": lambda e: e["c"] + e["dic"], "add_df": lambda e: e["v"] + e["user"],
        "standardize": lambda e: pf.standardize(e["naive"], "agnostic", "left"), "standardize2": lambda e: pf.standardize(e["df"], "agnostic", "left"),
        "standardize_r": lambda e: pf.standardize(e["rdf"], "agnostic", "right"), "standardize_a": lambda e: pf.standardize(e["df"], "aware", "left", tz="Europe/Berlin", floating=False),
        "standardize_rr": lambda e: pf.standardize(e["rdf"], None, "right"), "standardize_n": lambda e: pf.standardize(e["nofreq"], None, "left"), "standardize_s": lambda e: pf.standardize(e["nofreq"]["w"], "agnostic", "left"), "aware": lambda e: pf.force_aware(e["df"], "Europe/Berlin", floating=True),
        "aware2": lambda e: pf.force_aware(e["ser"], "Asia/Kolkata", floating=False), "agnostic": lambda e: pf.force_agnostic(e["df"]),
        "agnostic2": lambda e: pf.force_agnostic(e["user"]), "avg": lambda e: pf.asfreq_avg(e["df"], e["long"]), "sum": lambda e: pf.asfreq_sum(e["df"], e["long"]),
        "avgu": lambda e: pf.asfreq_avg(e["user"], e["long"]), "sumu": lambda e: pf.asfreq_sum(e["user"], e["long"]), "sumshort": lambda e: pf.asfreq_sum(e["df"], e["short"]),
        "avgnan": lambda e: pf.asfreq_avg(e["nanser"], e["long"]), "gaps": lambda e: tools.frame.fill_gaps(e["nanser"]), "gapsdf": lambda e: tools.frame.fill_gaps(e["nandf"], 3),
        "wavg": lambda e: pf.wavg(e["nanser"], e["wts"]), "wavgdf": lambda e: pf.wavg(e["nandf"], e["wts"]), "wavgdf1": lambda e: pf.wavg(e["nandf"], [1, 0], axis=1),
        "wavgdfdf": lambda e: pf.wavg(e["nandf"], e["wdf"], axis=1), "wavgdfdf0": lambda e: pf.wavg(e["nandf"], e["wdf"], axis=0),
        "wavgmap": lambda e: pf.wavg(e["nandf"], e["wmap"], axis=1), "hedge": lambda e: pf.hedge(e["ser"], e["pser2"], "vol", None, "MS"),
        "hedgeval": lambda e: pf.hedge(e["user"], e["pser"], "val", None, "MS"), "trim": lambda e: tools.trim.frame(e["df"], "MS"),
        "intersect": lambda e: tools.intersect.frames(e["df"], e["df"].tz_localize(None).asfreq(e["idx"].freq), ignore_tz=True), "intersect2": lambda e: tools.intersect.frames(e["df"], e["ser"].loc[stamps(e)[0]:]),
        "intersecti": lambda e: tools.intersect.indices(e["idx"], sub(e)), "unit": lambda e: tools.unit.defaultunit(e["df"]),
        "unit2": lambda e: tools.unit.avoid_frame_of_objects(e["df"]), "header": lambda e: tools.frame.add_header(e["df"], "x"),
        "concat": lambda e: tools.frame.concat([e["df"], tools.frame.add_header(e["udf"], "x")], axis=1), "right": lambda e: tools.right.index(e["idx"]),
        "left": lambda e: tools.righttoleft.index(e["rdf"].index), "duration": lambda e: tools.duration.frame(e["df"]),
        "mapyear": lambda e: pf.map_frame_to_year(e["df"], 2026), "charac": lambda e: pf.characterize_index(e["idx"] if e["idx"].freq == "D" else e["didx"], "DE"),
        "peakfn": lambda e: pf.germanpower_peakfn(e["idx"]), "tspo": lambda e: tools.peakconvert.tseries2poframe(e["hser"], pf.germanpower_peakfn, "MS"),
        "bpo": lambda e: tools.peakconvert.complete_bpoframe(e["po"], pf.germanpower_peakfn), "bpo2": lambda e: tools.peakconvert.complete_bpoframe(e["po"], pf.germanpower_peakfn, True),
        "po2ts": lambda e: tools.peakconvert.poframe2tseries(e["po"], pf.germanpower_peakfn, "h"), "po2po": lambda e: tools.peakconvert.poframe2poframe(e["po"], pf.germanpower_peakfn, "QS"),
        "sod": lambda e: tools.startofday.set(e["idx"], __import__("datetime").time(6)), "chindex": lambda e: tools.changefreq.index(e["idx"], e["long"]),
        "concat_parts": lambda e: pf.concat(e["parts"]), "concat_fparts": lambda e: pf.concat(e["fparts"]), "concat_sparts": lambda e: pf.concat(e["sparts"]),
        "intersect_list": lambda e: tools.intersect.frames(*e["frames"]), "create_kids": lambda e: pf.PfLine(e["kids"]), "create_ulist": lambda e: pf.PfLine(e["ulist"]),
        "plotall": lambda e: [str(x) for x in e["all"]],
        "w_q": lambda e: tools.testing.assert_w_q_compatible(e["idx"].freq, e["ser"], e["pser2"]), "close": lambda e: tools.frame.series_allclose(e["ser"], e["pser2"]),
    }.items():
        O[f"tool_{name}"] = f
    return O


NAMES = None


def names():
    global NAMES
    if NAMES is None:
        NAMES = sorted(ops())
    return NAMES


@st.composite
def cases(draw, group=("line", "nested", "state", "tool")):
    spec = draw(gen.ispec(nmax=NM, nmin=2, freqs=["15min", "h", "h", "D", "D", "MS", "MS", "QS", "YS"]))
    g = draw(st.sampled_from(group))
    pool = [n for n in names() if n.startswith(g)]
    return {"i": spec, "v": [draw(gen.vals("nz")) for _ in range(3)], "dtype": draw(st.sampled_from(["float", "float", "int"])),
            "ops": draw(st.lists(st.sampled_from(pool), min_size=6, max_size=16))}


def environment(case):
    import pandas as pd
    import portfolyo as pf
    s = case["i"]
    i = gen.build_index(s)
    f1, f2, f3 = (gen.expand(v, len(i)) for v in case["v"])
    if case["dtype"] == "int":
        f1, f2 = (f1 * 8192).astype(int), (f2 * 8192).astype(int)
    e = {"idx": i, "long": {"15min": "h", "h": "D", "D": "MS", "MS": "QS", "QS": "YS", "YS": "YS"}[s["freq"]],
         "short": {"15min": "15min", "h": "15min", "D": "h", "MS": "D", "QS": "MS", "YS": "QS"}[s["freq"]]}
    e["ser"], e["pser2"] = pd.Series(f1, i, name="my w"), pd.Series(f2, i)
    e["user"], e["pser"] = pd.Series(f1, i).astype(float).astype("pint[kW]"), pd.Series(f2, i).astype(float).astype("pint[ctEur/kWh]")
    e["nodim"] = pd.Series(f3, i).astype("pint[dimensionless]")
    nan = np.where(np.arange(len(i)) % 3 == 1, np.nan, f3)
    e["nanser"], e["nandf"] = pd.Series(nan, i), pd.DataFrame({"x": nan, "y": f2 * 1.0}, i)
    e["wts"] = pd.Series(np.where(np.arange(len(i)) % 3 == 1, 0.0, np.abs(f3)), i)
    e["wdf"] = pd.DataFrame({"x": e["wts"], "y": f3 - f3}, i)
    e["wmap"] = {"x": 0.0, "y": 2.0}
    e["df"] = pd.DataFrame({"w": f1, "p": f2}, i)
    e["udf"] = pd.DataFrame({"vol": e["user"], "pr": e["pser"]}) if False else pd.DataFrame({"w": e["user"], "p": e["pser"]})
    e["naive"] = e["df"].tz_localize(None) if i.tz is not None else e["df"].copy()
    e["naive"].index.name = "time"
    e["naive"] = e["naive"][~e["naive"].index.duplicated()]
    e["rdf"] = pd.DataFrame({"w": f1}, pd.DatetimeIndex(list(i[1:]) + [pf.tools.right.stamp(i[-1], i.freq)], name="to"))
    e["dic"], e["dicw"], e["dicp"] = {"w": e["ser"], "p": e["pser"]}, {"w": e["ser"]}, {"p": e["pser2"]}
    e["ndic"] = {"x": {"w": e["user"], "p": e["pser"]}, "y": e["df"], "zz": {"z": e["dic"]}}
    e["po"] = pd.DataFrame({"peak": f1, "offpeak": f2}, i) if s["freq"] in ("MS", "QS", "YS") else pd.DataFrame(
        {"peak": [3.0, 4.0, 5.0], "offpeak": [1.0, 2.0, 4.0]}, pd.date_range("2024-01-01", freq="MS", periods=3, tz=s["tz"]))
    e["c"] = pf.PfLine({"w": pd.Series(f1, i), "p": pd.Series(f2, i)})
    e["a"], e["b"] = pf.PfLine({"q": pd.Series(f2, i)}), pf.PfLine({"q": pd.Series(f1, i)}).slice[stamps(e)[0]:]
    e["v"], e["p"], e["r"] = pf.PfLine({"w": pd.Series(-f1, i)}), pf.PfLine({"p": pd.Series(f2, i)}), pf.PfLine({"r": pd.Series(f3, i)})
    e["d"] = pf.PfLine({"q": pd.Series(f1, i), "r": pd.Series(f3, i)})
    e["q"] = pf.PfLine({"A": e["p"], "B": e["p"] * 2})
    e["n"] = pf.PfLine({"A": e["c"], "B": e["d"], "sub": {"C": e["c"], "D": e["d"]}})
    e["m"] = pf.PfLine({"B": e["d"] * 2, "C": e["c"]})
    e["s"], e["t"] = pf.PfState(e["v"], e["p"], e["n"]), pf.PfState(e["a"], e["p"] * 2, e["d"])
    e["nofreq"] = pd.DataFrame({"w": f1, "p": f2}, pd.DatetimeIndex(list(i), name="from"))
    e["didx"] = pd.date_range("2024-02-01", periods=40, freq="D", tz=s["tz"])
    hi = pd.date_range("2024-02-01", "2024-03-01", freq="h", inclusive="left", tz=s["tz"])
    e["hser"] = pd.Series(np.resize(f1, len(hi)) * 1.0, hi)
    e["all"] = [e["n"], e["m"]]
    cut = stamps(e)[0]
    try:  # containers in the user's hands, in any order
        e["parts"] = [x.slice[cut:] if j else x.slice[:cut] for x in (e["n"],) for j in (1, 0)]
        e["fparts"] = [x.slice[cut:] if j else x.slice[:cut] for x in (e["c"],) for j in (1, 0)]
        e["sparts"] = [x.slice[cut:] if j else x.slice[:cut] for x in (e["s"],) for j in (1, 0)]
    except ValueError:
        e["parts"] = e["fparts"] = e["sparts"] = [e["n"]]
    e["frames"] = [e["df"], e["ser"].loc[cut:]]
    e["kids"] = {"B": e["d"], "A": e["c"], "x": e["dic"]}
    e["ulist"] = [e["pser"], e["user"]]
    return e


def check(case, ctx):
    e = environment(case)
    before = {k: snap(v) for k, v in e.items()}
    O = ops()
    ok = 0
    for n in case["ops"]:
        if run(O[n], e):
            ok += 1
            ctx.label(n.rsplit("_", 1)[0] if n.startswith(("line", "nested", "state")) else n)
    if any(snap(v) != before[k] for k, v in e.items()):
        e = environment(case)
        for n in case["ops"]:
            run(O[n], e)
            for k, v in e.items():
                if snap(v) != before[k]:
                    raise AssertionError(f"operation {n} changed {k}: {diff(before[k], snap(v))}")
        raise AssertionError("the operations together changed their inputs")
    ctx.nt(ok >= 1)


def run(f, e):
    try:
        f(e)
        return True
    except (TypeError, ValueError, NotImplementedError, AssertionError, AttributeError, KeyError, IndexError, NameError, ImportError,
            ZeroDivisionError):
        return False  # refused or not applicable: still must not have changed anything


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} -> {b!r}"[:500]
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} -> {len(b)}"
        for j, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}/{a[0] if isinstance(a, tuple) and j else ''}{j}")
    if isinstance(a, bytes):
        return f"{path}: {np.frombuffer(a)[:4]} -> {np.frombuffer(b)[:4]}"
    return f"{path}: {a!r} -> {b!r}"[:500]


SUBS = [
    Sub(g, (lambda g: lambda: cases((g,)))(g), check, n, n * 20, rule=f"6-16 {g} operations on an environment of lines, nested lines, states, series, "
        "frames, dictionaries and indices that share data; a deep snapshot of everything is compared bytewise afterwards. Non-trivial: at least one "
        "operation was not refused.")
    for g, n in (("line", 100), ("nested", 32), ("state", 70), ("tool", 80))
]
