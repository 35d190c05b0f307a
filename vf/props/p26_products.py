"""P26: delivery periods of traded products, pairs of stamps, stamp creation."""
import datetime as dt
from hypothesis import strategies as st
import pandas as pd
from .. import cal, gen
from ..core import Sub, must_raise

TZS = [None, "Europe/Berlin", "Europe/Berlin", "Asia/Kolkata", "Europe/London", "America/New_York", "UTC", "Australia/Sydney"]
SODS = [[0, 0], [0, 0], [6, 0], [5, 0], [22, 0], [5, 30], [23, 45]]


def aware(e, tz, us=0):
    ts = pd.Timestamp(e, unit="s", tz="UTC") + pd.Timedelta(us, "us")
    return ts.tz_convert(tz) if tz else ts.tz_localize(None)


@st.composite
def trades(draw):
    tz = draw(st.sampled_from(TZS))
    d = draw(gen.dates(tz, (2005, 2030)))
    return {"tz": tz, "d": d, "s": draw(st.one_of(st.sampled_from([0, 0, 6 * 3600, 82800, 86399]), st.integers(0, 86399))), "us": draw(st.sampled_from([0, 0, 1, 999999])),
            "t": draw(st.sampled_from("dmqsy")), "n": draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 13])), "sod": draw(st.sampled_from([None] + SODS)), "kw": draw(st.booleans())}


def ref_start(d, t, n):
    """Date on which the n-th product after trading day d starts."""
    if t == "d":
        return d + dt.timedelta(days=n)
    if t == "m":
        return cal.addmonths(d.replace(day=1), n)
    months = {"q": (1, 4, 7, 10), "s": (4, 10), "y": (1,)}[t]
    x = d.replace(day=1)
    while n:
        x = cal.addmonths(x, 1)
        if x.month in months:
            n -= 1
    return x


LEN = {"m": 1, "q": 3, "s": 6, "y": 12}


def check_trade(case, ctx):
    from portfolyo import tools
    import portfolyo as pf
    tz, t, n = case["tz"], case["t"], case["n"]
    d = dt.date(*case["d"])
    w = dt.datetime.combine(d, dt.time()) + dt.timedelta(seconds=case["s"])
    if tz and not cal.exists(w, tz):
        w = dt.datetime.combine(d, dt.time(12))
    ts = aware(cal.epoch(w, tz), tz, case["us"])
    sod = case["sod"] or [0, 0]
    so = None if case["sod"] is None else dt.time(*case["sod"])
    f = tools.product.delivery_period
    got = f(ts_trade=ts, period_type=t, front_count=n, start_of_day=so) if case["kw"] or so is None else f(ts, t, n, so)
    a = ref_start(d, t, n)
    b = a + dt.timedelta(days=1) if t == "d" else cal.addmonths(a, LEN[t])
    exp = tuple(aware(cal.bound(x, sod, tz), tz) for x in (a, b))
    assert len(got) == 2 and all(g == e and str(g.tz) == str(ts.tz) for g, e in zip(got, exp)), \
        f"delivery period of {t}-product {n} traded {ts} (start-of-day {so}): {got[0]} - {got[1]}, expected {exp[0]} - {exp[1]}"
    assert (got[0].hour, got[0].minute, got[0].second, got[0].microsecond) == (sod[0], sod[1], 0, 0)
    nxt = f(ts, t, n + 1, so)
    assert nxt[0] == got[1], f"{t}-products {n} and {n + 1} traded {ts} do not adjoin: {got[1]} and {nxt[0]}"
    if t == "m" and n == 1:
        assert f(ts, start_of_day=so) == got, "default product is the front month"
    dst = tz and len({x.utcoffset() for x in (ts, got[0], got[1])}) > 1
    ctx.label(t, f"front {n}", "dst" if dst else "no dst", "boundary day" if ref_start(d - dt.timedelta(days=1), t, 1) == d else "inside")
    ctx.nt(bool(dst) or n > 1 or sod != [0, 0])


@st.composite
def badtrades(draw):
    return {"t": draw(st.sampled_from(["w", "x", "", "M", "days", None, 3, "Q"])), "d": draw(gen.dates())}


def check_badtrade(case, ctx):
    from portfolyo import tools
    must_raise(lambda: tools.product.delivery_period(pd.Timestamp(*case["d"]), case["t"]), (Exception,), f"period type {case['t']}")
    ctx.nt()


# -- pairs of stamps


@st.composite
def pairs(draw):
    tz = draw(st.sampled_from(TZS))
    sod = draw(st.sampled_from([None] + SODS))
    how = draw(st.sampled_from(["both", "both", "left", "left", "right", "right", "none", "zones", "times"]))
    t = draw(st.sampled_from(SODS))

    def d():
        if draw(st.integers(0, 3)) == 0:
            return [draw(st.integers(2010, 2028)), 1, 1]
        return draw(gen.dates(tz, (2010, 2028)))
    return {"tz": tz, "sod": sod, "how": how, "t": t, "a": d(), "b": d(), "as": draw(st.sampled_from(["stamp", "stamp", "text", "datetime", "date-text", "date", "zoneinfo"])),
            "as2": draw(st.sampled_from(["stamp", "zoneinfo"])), "kw": draw(st.booleans())}


def make(d, t, tz, how):
    """-> (what the user passes, epoch seconds without / with the tz and start-of-day arguments considered)"""
    w = dt.datetime(*d, *t)
    if how == "stamp":
        return aware(cal.epoch(w, tz), tz)
    if how == "zoneinfo":
        return pd.Timestamp(w, tz=cal.zone(tz)) if tz else pd.Timestamp(w)
    if how == "text":
        return w.strftime("%Y-%m-%d %H:%M")
    if how == "datetime":
        return w
    if how == "date-text":
        return w.strftime("%Y-%m-%d")
    return w.date()


def check_pair(case, ctx):
    from portfolyo import tools
    tz, sod, t, how, as_ = case["tz"], case["sod"], case["t"], case["how"], case["as"]
    so = None if sod is None else dt.time(*sod)
    f = tools.leftandright.stamps
    ctx.label(how, as_, str(tz), "sod" if sod and sod != [0, 0] else "midnight")
    dateonly = as_ in ("date-text", "date") or t == [0, 0] and as_ in ("text", "datetime")
    tt = tuple((sod or [0, 0]) if dateonly else t)  # time that the stamps must end up with
    if how == "none":
        n0 = pd.Timestamp.now(tz=tz)
        got = f(tz=tz, start_of_day=so)
        n1 = pd.Timestamp.now(tz=tz)
        ok = []
        for n in (n0, n1):
            y = cal.delivery_date(int(n.tz_convert("UTC").timestamp()) if tz else int(n.timestamp()), tz, sod or [0, 0]).year
            ok.append(tuple(aware(cal.bound(dt.date(y + k, 1, 1), sod or [0, 0], tz), tz) for k in (1, 2)))
        assert tuple(got) in ok, f"without stamps: {got}, expected {ok[0]}"
        assert all(str(x.tz) == str(tz) for x in got)
        ctx.nt()
        return
    if how == "zones":
        other = "Asia/Tokyo" if tz is None else None
        a, b = make(case["a"], t, tz, "stamp"), make(case["b"], t, other, "stamp")
        must_raise(lambda: f(a, b), (ValueError,), "stamps with distinct timezones")
        ctx.nt()
        return
    if how == "times":
        t2 = [t[0], (t[1] + 15) % 60]
        a, b = make(case["a"], t, tz, "stamp"), make(case["b"], t2, tz, "stamp")
        must_raise(lambda: f(a, b), (ValueError,), "stamps with distinct times")
        ctx.nt()
        return
    da, db = dt.date(*case["a"]), dt.date(*case["b"])
    A, B = make(case["a"], t, tz, as_), make(case["b"], t, tz, as_ if as_ not in ("stamp", "zoneinfo") else case["as2"])

    def ep(d):
        return cal.epoch(dt.datetime.combine(d, dt.time(*tt)), tz)

    def year(d, k):
        return cal.bound(dt.date(d.year + k, 1, 1), tt, tz)
    kw = dict(tz=tz, start_of_day=so)
    if how == "both":
        got = f(A, B, **kw) if case["kw"] else f(A, B, tz, so)
        exp = sorted((ep(da), ep(db)))
    elif how == "left":
        got = f(A, None, **kw) if case["kw"] else f(left=A, **kw)
        exp = [ep(da), year(da, 1)]
    else:
        got = f(right=B, **kw)
        start = db.month == 1 and db.day == 1
        exp = [year(db, -1 if start else 0), ep(db)]
    e = [int(g.tz_convert("UTC").timestamp()) if tz else int(g.timestamp()) for g in got if (g.tz is None) == (tz is None)]
    assert e == exp, f"stamps({how}, {A if how != 'right' else None}, {B if how != 'left' else None}, tz={tz}, start_of_day={so}): {got[0]} - {got[1]}, expected {aware(exp[0], tz)} - {aware(exp[1], tz)}"
    assert got[0] <= got[1]
    assert all(str(g.tz) == str(tz) for g in got), f"timezones {[str(g.tz) for g in got]}, expected {tz}"
    ctx.nt(how != "both" or exp != [ep(da), ep(db)] or dateonly)


@st.composite
def creates(draw):
    tz = draw(st.sampled_from(TZS))
    return {"tz": tz, "sod": draw(st.sampled_from([None] + SODS)), "t": draw(st.sampled_from(SODS)), "d": draw(gen.dates(tz, (2010, 2028))),
            "as": draw(st.sampled_from(["stamp", "text", "datetime", "date-text", "date", "nat", "none", "otherzone"]))}


def check_create(case, ctx):
    from portfolyo import tools
    tz, sod, t, as_ = case["tz"], case["sod"], case["t"], case["as"]
    so = None if sod is None else dt.time(*sod)
    f = tools.stamp.create
    ctx.label(as_)
    if as_ in ("nat", "none"):
        assert f(None if as_ == "none" else pd.NaT, tz, so) is pd.NaT
        return
    if as_ == "otherzone":  # the stamp's own timezone and time take precedence
        a = make(case["d"], t, "America/New_York" if tz != "America/New_York" else None, "stamp")
        assert f(a, tz, so) == a and str(f(a, tz, so).tz) == str(a.tz)
        ctx.nt()
        return
    x = make(case["d"], t, tz, as_)
    dateonly = as_ in ("date-text", "date") or t == [0, 0] and as_ in ("text", "datetime")
    tt = (sod or [0, 0]) if dateonly else t
    exp = aware(cal.epoch(dt.datetime(*case["d"], *tt), tz), tz)
    got = f(x, tz, so)
    assert got == exp and str(got.tz) == str(tz), f"create({x!r}, {tz}, {so}): {got}, expected {exp}"
    ctx.nt(as_ != "stamp")


SUBS = [
    Sub("product", trades, check_trade, 5000, rule="delivery period of the n-th front product (day, month, quarter, season, year) for trading stamps near DST changes and period boundaries, all start-of-day; "
        "adjacency of consecutive products. Non-trivial: DST change involved, not the front product, or start-of-day other than midnight."),
    Sub("badproduct", badtrades, check_badtrade, 40, rule="unknown product types are refused. All non-trivial."),
    Sub("pair", pairs, check_pair, 3000, rule="completing or ordering a pair of stamps (both, one or none given; as stamps, text, datetime, date; other timezone representation); distinct zones or times refused. "
        "Non-trivial: something is filled in, swapped, or derived from the arguments, or refused."),
    Sub("create", creates, check_create, 600, rule="timestamp from any input. Non-trivial: input is not yet a timestamp."),
]
