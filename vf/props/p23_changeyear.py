"""P23: mapping full months onto another year, judged by an own classification of the delivery days."""
import datetime as dt
import math
from collections import Counter
from functools import lru_cache
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from .. import cal, gen, model
from ..cmp import close, mag, same_index
from ..core import Sub, must_raise
from .p04_immutability import snap

COUNTRIES = ["DE", "DE", "NL", "FR", "GB", "US", "IN", None, None]
TZS = [None, "Europe/Berlin", "Europe/Berlin", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "UTC"]
SODS = [[0, 0], [0, 0], [6, 0], [22, 0]]
LONGEST = {"15min": 2, "h": 4, "D": 14, "MS": 30, "QS": 30, "YS": 72}


@st.composite
def spans(draw, freqs, years=(2006, 2034), longest=LONGEST):
    """Index of full months (quarters, years)."""
    f = draw(st.sampled_from(freqs))
    k = cal.kind(f)
    step = {"QS": 3, "YS": 12}.get(k, 1)
    tz = draw(st.sampled_from(TZS))
    m = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 10, 11, 12, 12]))
    d = cal.floor_date(dt.date(draw(st.integers(*years)), m, 1), f)
    nm = draw(st.one_of(st.integers(1, 3), st.integers(1, longest[k]))) if k in ("15min", "h", "D") else draw(st.integers(1, longest[k] // step)) * step
    d = d.replace(year=min(d.year, 2036 - nm // 12))  # (pytz ends in 2037)
    return months_spec(f, tz, draw(st.sampled_from(SODS)), d, nm)


def months_spec(f, tz, sod, d, nm):
    k = cal.kind(f)
    n = nm // {"QS": 3, "YS": 12, "MS": 1}[k] if k in ("MS", "QS", "YS") else (cal.addmonths(d, nm) - d).days
    return {"freq": f, "tz": tz, "sod": list(sod), "start": [d.year, d.month, d.day], "n": n}


def nmonths(spec):
    a, b = dt.date(*spec["start"]), cal.end_date(spec)
    return (b.year - a.year) * 12 + b.month - a.month


def in_year(spec, year):
    d = dt.date(*spec["start"])
    return months_spec(spec["freq"], spec["tz"], spec["sod"], d.replace(year=year), nmonths(spec))


# -- own classification of delivery days


@lru_cache(maxsize=None)
def holiday_names(country, year):
    import holidays
    return dict(getattr(holidays, country)(years=[year]).items())


@lru_cache(maxsize=None)
def holiday_names_wide(country, year):
    import holidays
    return dict(getattr(holidays, country)(years=[year - 1, year, year + 1]).items())


def day_type(d, tz, sod, country):
    """('dst',) or ('hol', name) or ('plain', isoweekday) or None if it depends on how one looks at it."""
    l, r = cal.bound(d, sod, tz), cal.bound(d + dt.timedelta(days=1), sod, tz)
    if abs(r - l - 86400) > 360:
        return ("dst", r - l)
    if country:
        a, b = holiday_names(country, d.year).get(d, ""), holiday_names_wide(country, d.year).get(d, "")
        if a != b:
            return None
        if a:
            return ("hol", a)
    return ("plain", d.isoweekday())


def month_days(y, m):
    d, out = dt.date(y, m, 1), []
    while d.month == m:
        out.append(d)
        d += dt.timedelta(days=1)
    return out


def months_of(spec):
    d, out = dt.date(*spec["start"]), []
    step = {"QS": 3, "YS": 12}.get(cal.kind(spec["freq"]), 1)
    while d < cal.end_date(spec):
        out.append((d.year, d.month))
        d = cal.addmonths(d, step)
    return out


def fits(t, s, sdate, named):
    """Is a source day of type s right for a target day of type t?  named: same-named holiday available."""
    if t is None or s is None:
        return True
    if t[0] == "dst":
        return s[0] == "dst"
    if s[0] == "dst":
        return False
    if t[0] == "plain":
        return s == t
    if named:
        return s == t
    return s[0] == "hol" or sdate.isoweekday() == 7


def possible(src, tgt, country):
    """(sure, maybe): is there a source day for every target day, whatever / for at least some choice of source month?"""
    tz, sod = src["tz"], src["sod"]
    sm, sure, maybe = months_of(src), True, True
    for ym in months_of(tgt):
        cand = [ym] if ym in sm else [x for x in sm if x[1] == ym[1]]
        if not cand:
            return False, False
        ok = []
        for c in cand:
            if cal.order(src["freq"]) > cal.order("D"):
                ok.append(True)
                continue
            types = {d: day_type(d, tz, sod, country) for d in month_days(*c)}
            good = True
            for d in month_days(*ym):
                t = day_type(d, tz, sod, country)
                if None in types.values() or t is None:
                    good = None if good else good
                    continue
                named = t in types.values()
                if not any(fits(t, s, x, named) for x, s in types.items()):
                    good = False
            ok.append(good)
        sure = sure and all(x is True for x in ok)
        maybe = maybe and any(x is not False for x in ok)
    return sure, maybe


def check_positions(src, tgt, country, pos, ctx=None):
    """pos: for each target period, the position of the source period from which the value was taken."""
    tz, sod = src["tz"], src["sod"]
    bs, bt = cal.bounds(src), cal.bounds(tgt)
    assert len(pos) == len(bt) - 1
    sm = months_of(src)
    used = {}  # month -> source month
    daymap = {}  # target day -> source day

    def day(e):
        return cal.delivery_date(e, tz, sod)
    for j, p in enumerate(pos):
        p = int(p)
        td, sd = day(bt[j]), day(bs[p])
        t, s = (td.year, td.month), (sd.year, sd.month)
        assert t[1] == s[1], f"value for {td} taken from other calendar month: {sd}"
        assert used.setdefault(t, s) == s, f"values for {t} taken from several months: {used[t]} and {s}"
        if t in sm:
            assert s == t and bs[p] == bt[j], f"{td} is in both source and target, but its value is taken from {sd}"
        if cal.order(src["freq"]) <= cal.order("D"):
            assert daymap.setdefault(td, sd) == sd, f"values for {td} taken from several days: {daymap[td]} and {sd}"
            assert bt[j] - cal.bound(td, sod, tz) == bs[p] - cal.bound(sd, sod, tz), f"other part of the day: {cal.wall(bt[j], tz)} taken from {cal.wall(bs[p], tz)}"
            assert bt[j + 1] - bt[j] == bs[p + 1] - bs[p], f"other duration: {cal.wall(bt[j], tz)} taken from {cal.wall(bs[p], tz)}"
    # months are used equally often
    for m in set(t[1] for t in used):
        c = Counter({x: 0 for x in sm if x[1] == m})
        c.update(s for t, s in used.items() if t[1] == m)
        assert max(c.values()) - min(c.values()) <= 1 or any(t in sm for t in used if t[1] == m), f"source months used unequally: {dict(c)}"
    if not daymap:
        return
    types = {}

    def typ(d):
        if d not in types:
            types[d] = day_type(d, tz, sod, country)
        return types[d]
    for tm, s_m in used.items():
        sdays = month_days(*s_m)
        stypes = {d: typ(d) for d in sdays}
        fallback = False
        count = Counter({d: 0 for d in sdays})
        for td in month_days(*tm):
            t, sd = typ(td), daymap[td]
            named = t in stypes.values()
            assert fits(t, stypes[sd], sd, named), f"{td} ({t}) taken from {sd} ({stypes[sd]})" + ("" if not named else ", although there is a day of the same type")
            fallback |= t is not None and t[0] == "hol" and not named
            count[sd] += 1
        if None in stypes.values() or any(typ(d) is None for d in month_days(*tm)):
            continue
        for wd in range(1, 8):
            if wd == 7 and fallback:
                continue
            c = {d: count[d] for d in sdays if stypes[d] == ("plain", wd)}
            assert not c or max(c.values()) - min(c.values()) <= 1, f"source days for weekday {wd} of {tm} used unequally: {({str(k): v for k, v in c.items()})}"
        if ctx and fallback:
            ctx.label("holiday without namesake")


# -- frames onto another year or index


@st.composite
def frames(draw, freqs):
    src = draw(spans(freqs))
    c = {"src": src, "country": draw(st.sampled_from(COUNTRIES)), "df": draw(st.booleans()), "units": draw(st.integers(0, 3)) == 0, "name": draw(st.sampled_from([None, "delivery"]))}
    y = src["start"][0]
    if draw(st.integers(0, 3)):
        c["year"] = draw(st.one_of(st.integers(2004, 2035), st.sampled_from([y, y + 1, y - 1, y + 1, y + 5, 2024, 2028])))
        c["year"] = min(max(c["year"], 2001), 2036 - nmonths(src) // 12)
    else:  # any other index; mostly with months that are available
        m = cal.addmonths(dt.date(*src["start"]), draw(st.integers(0, nmonths(src) - 1)))
        d = cal.floor_date(m.replace(year=draw(st.integers(2007, 2032))), src["freq"])
        step = {"QS": 3, "YS": 12}.get(cal.kind(src["freq"]), 1)
        nm = draw(st.integers(1, max(1, nmonths(src) // step + draw(st.sampled_from([0, 0, 1]))))) * step
        nm = min(nm, 24 if step == 1 else 60) if src["freq"] not in ("15min", "h") else min(nm, 4)
        d = d.replace(year=min(d.year, 2036 - nm // 12))
        c["tgt"] = months_spec(src["freq"], src["tz"], src["sod"], d, nm)
    return c


# holidays that are on the day of a clock change in some year, and not in another
CLOCKHOLIDAY = [("SI", 10, (2021, 2010, 2027), (2022, 2011, 2020)), ("NL", 3, (2024, 2016, 2013), (2008, 2008, 2008))]


@st.composite
def clockholidays(draw, freqs):
    """Source or target month in which a holiday coincides with the clock change."""
    country, m, a, b = draw(st.sampled_from(CLOCKHOLIDAY))
    ys = [draw(st.sampled_from(a)), draw(st.sampled_from(b))]
    if draw(st.integers(0, 3)) == 0:
        ys = ys[::-1]
    nm, before = draw(st.sampled_from([(1, 0), (1, 0), (2, 1), (3, 1)]))
    d = cal.addmonths(dt.date(ys[0], m, 1), -before)
    src = months_spec(draw(st.sampled_from([f for f in freqs if cal.order(f) <= cal.order("D")])), "Europe/Berlin", draw(st.sampled_from(SODS[:3])), d, nm)
    return {"src": src, "country": country, "df": draw(st.booleans()), "units": False, "name": None, "year": ys[1]}


def check_frames(case, ctx):
    import portfolyo as pf
    from portfolyo.tools import changeyear
    src, country = case["src"], case["country"]
    tgt = case["tgt"] if "tgt" in case else in_year(src, case["year"])
    i = gen.build_index(src, case["name"])
    n = len(i)
    ids = pd.Series(np.arange(n, dtype=float), i, name="val")
    arg = pd.DataFrame({"a": ids, "b": 3 * ids + 1, ("c", "d"): -ids}) if case["df"] else ids
    if case["units"] and not case["df"]:
        arg = ids.astype("pint[MW]")
    sure, maybe = possible(src, tgt, country)
    ctx.label(src["freq"], str(src["tz"]), "country" if country else "no country", "year" if "year" in case else "index", "DST" if cal.has_dst_change(src) else "")
    before = arg.copy(deep=True)

    def do():
        if "year" in case:
            return pf.map_frame_to_year(arg, case["year"], country)
        return changeyear.map_frame_to_index(arg, gen.build_index(tgt), country)
    if not maybe:
        must_raise(do, (ValueError,), "mapping without suitable source days")
        ctx.label("impossible")
        ctx.nt()
        return
    try:
        out = do()
    except ValueError:
        if sure:
            raise
        ctx.label("refused")
        return
    assert (arg.equals(before) if not case["units"] or case["df"] else (mag(arg) == mag(before)).all()) and arg.index.equals(i) and arg.index.freq == i.freq, "source was changed"
    assert type(out) is type(arg)
    b = cal.bounds(tgt)
    same_index(out.index, b[:-1], src["freq"], src["tz"], "index in other year")
    if case["df"]:
        assert list(out.columns) == list(arg.columns), f"columns {list(out.columns)}"
        pos = np.asarray(out["a"], float)
        close(out["b"], 3 * pos + 1, "second column")
        close(out[("c", "d")], -pos, "third column")
    else:
        assert out.name == "val", f"name of series {out.name}"
        if case["units"]:
            assert out.pint.units == pf.ureg.Unit("MW")
        pos = mag(out)
    assert np.all(np.isin(pos, np.arange(n))), "values that are not in the source"
    check_positions(src, tgt, country, pos, ctx)
    ctx.nt(n > 1 and src != tgt)


# -- lines


@st.composite
def lines(draw):
    src = draw(spans(["h", "D", "D", "MS", "MS", "QS", "YS", "YS-APR", "QS-FEB"], longest={**LONGEST, "h": 1, "D": 4, "MS": 15, "QS": 24, "YS": 60}))
    d = draw(model.line(src, depth=2))
    y = src["start"][0]
    return {"src": src, "d": d, "country": draw(st.sampled_from(COUNTRIES)), "year": min(draw(st.one_of(st.integers(2005, 2032), st.sampled_from([y, y + 1, 2024]))), 2036 - nmonths(src) // 12)}


def check_lines(case, ctx):
    import portfolyo as pf
    src, d, country, year = case["src"], case["d"], case["country"], case["year"]
    tgt = in_year(src, year)
    sure, maybe = possible(src, tgt, country)
    pfl = model.build(d)
    m = model.model(d)
    before = snap(pfl)
    try:
        out = pf.map_to_year(pfl, year, country)
    except ValueError:
        if sure:
            raise
        ctx.label("refused")
        return
    assert maybe, "mapped although there are no suitable source days"
    assert snap(pfl) == before, "source was changed"
    i = gen.build_index(src)
    pos = np.asarray(pf.map_frame_to_year(pd.Series(np.arange(len(i), dtype=float), i), year, country)).astype(int)
    check_positions(src, tgt, country, pos)
    b = cal.bounds(tgt)
    L, R = b[:-1], b[1:]
    hours = np.diff(b) / 3600

    def mapped(x):
        if x.nested:
            return x.like(children={n: mapped(c) for n, c in x.children.items()}, L=L, R=R)
        c = {k: v[pos] for k, v in x.cols.items()}
        h = x.hours[pos]
        for k in ("q", "r", "gq"):
            if k in c:
                c[k] = c[k] / h * hours
        return x.like(cols=c, L=L, R=R)
    model.check(out, mapped(m), f"line in {year}")
    ctx.label(src["freq"], d["k"], "nested" if "ch" in d else "flat", "other durations" if not np.allclose(hours, m.hours[pos]) else "same durations", "same year" if year == src["start"][0] else "")
    ctx.nt(src != tgt)


# -- characterisation of days


@st.composite
def chars(draw):
    f = draw(st.sampled_from(["D", "D", "D", "D", "h", "MS", "15min"]))
    return {"i": draw(gen.ispec((f,), nmax={"D": 400, "h": 2, "15min": 1, "MS": 3}, years=(2006, 2033))), "country": draw(st.sampled_from(COUNTRIES)), "pos": draw(st.booleans())}


def check_chars(case, ctx):
    import portfolyo as pf
    s, country = case["i"], case["country"]
    i = gen.build_index(s)
    if s["freq"] != "D":
        must_raise(lambda: pf.characterize_index(i, country), (ValueError,), "characterisation of non-daily index")
        return
    c = pf.characterize_index(i, country) if country != "DE" or case["pos"] else pf.characterize_index(i)
    assert c.index.equals(i)
    d0 = dt.date(*s["start"])
    for j in range(s["n"]):
        d = d0 + dt.timedelta(days=j)
        row = c.iloc[j]
        assert (row.yy, row.mm, row.dd, row.isoweekday) == (d.year, d.month, d.day, d.isoweekday()), f"{d}: {dict(row)}"
        l, r = cal.bound(d, s["sod"], s["tz"]), cal.bound(d + dt.timedelta(days=1), s["sod"], s["tz"])
        assert bool(row.dst_change) == (r - l != 86400), f"{d}: dst change {row.dst_change}"
        if country:
            ok = {holiday_names(country, d.year).get(d, ""), holiday_names_wide(country, d.year).get(d, "")}
            assert row.holiday in ok, f"{d}: holiday {row.holiday!r}, expected {ok}"
        else:
            assert row.holiday == "", f"{d}: holiday {row.holiday!r}"
    ctx.label("country" if country else "no country", "DST" if cal.has_dst_change(s) else "")
    ctx.nt(s["n"] > 7)


# -- refusals


@st.composite
def bad(draw):
    src = draw(spans(["h", "D", "MS", "QS", "YS"], longest={**LONGEST, "h": 1, "D": 2, "MS": 8}))
    return {"src": src, "k": draw(st.sampled_from(["tz", "freq", "month"])), "at": draw(st.integers(0, 11))}


def check_bad(case, ctx):
    from portfolyo.tools import changeyear
    src, k = case["src"], case["k"]
    i = gen.build_index(src)
    t = in_year(src, 2030)
    if k == "tz":
        t = {**t, "tz": "Europe/Paris" if src["tz"] != "Europe/Paris" else None}
    elif k == "freq":
        f = {"h": "D", "D": "h", "MS": "D", "QS": "MS", "YS": "QS"}[src["freq"]]
        t = months_spec(f, src["tz"], src["sod"], dt.date(*t["start"]), nmonths(src))
    else:
        have = {m for _, m in months_of(src)}
        free = [m for m in range(1, 13) if m not in have]
        if not free or src["freq"] == "YS":
            return
        m = free[case["at"] % len(free)]
        if src["freq"] == "QS":
            m = (m - 1) // 3 * 3 + 1
            if m in have:
                return
        t = months_spec(src["freq"], src["tz"], src["sod"], dt.date(2030, m, 1), 3 if src["freq"] == "QS" else 1)
    j = gen.build_index(t)
    s = pd.Series(1.0, i)
    must_raise(lambda: changeyear.map_frame_to_index(s, j, None), (ValueError,), f"{src} onto {t}")
    must_raise(lambda: changeyear.map_index_to_index(i, j, None), (ValueError,), f"{src} onto {t}")
    ctx.label(k, src["freq"])
    ctx.nt()


FINE, LONG = ["15min", "h", "h", "D", "D", "D", "D"], ["MS", "MS", "QS", "YS", "QS-FEB", "YS-APR", "YS-OCT"]
SUBS = [
    Sub("fine", (lambda: frames(FINE)), check_frames, 130, 2600, rule="(quarter)hourly and daily series and frames of 1-14 full months with unique values, mapped onto another year or index (6 countries or none); "
        "every value is traced back to its source day, and judged by an own classification of days. Non-trivial: not mapped onto itself."),
    Sub("long", (lambda: frames(LONG)), check_frames, 150, 2500, rule="same for monthly, quarterly, yearly data. Non-trivial: not mapped onto itself."),
    Sub("clock", (lambda: clockholidays(FINE)), check_frames, 24, 300, rule="same for months in which a public holiday is on the day of the clock change. All non-trivial."),
    Sub("line", lines, check_lines, 80, 1500, rule="map_to_year of flat and nested lines of every kind: power and price carried over, energy and revenue follow the durations. Non-trivial: other year."),
    Sub("char", chars, check_chars, 60, 900, rule="characterize_index: date fields, weekday, holiday, DST change of each day. Non-trivial: more than a week."),
    Sub("refuse", bad, check_bad, 60, 600, rule="other timezone, other frequency, month that the source does not have: refused. All non-trivial."),
]
