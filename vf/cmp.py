"""Reading magnitudes out of the code under test, and comparing with stated tolerances."""
import numpy as np
import pandas as pd

UNIT = {"w": "MW", "q": "MWh", "p": "euro_per_MWh", "r": "euro", "duration": "hour", "nodim": "dimensionless"}


def mag(s, what=None) -> np.ndarray:
    """Float values of a series; if `what` is given the series must carry that default unit."""
    if what is not None:
        assert hasattr(s, "pint"), f"expected a series with unit for {what}, got dtype {s.dtype}"
        import portfolyo as pf
        u = s.pint.units
        if u != pf.ureg.Unit(UNIT[what]):  # e.g. MWh/h instead of MW: the same thing
            f = pf.Q_(1.0, u).to(UNIT[what]).magnitude  # error if other dimension
            return np.asarray(s.pint.magnitude, dtype=float) * f
    if hasattr(s, "pint"):
        return np.asarray(s.pint.magnitude, dtype=float)
    return np.asarray(s, dtype=float)


def close(a, b, what="", rtol=1e-8, atol=0.0, equal_nan=True):
    """Elementwise |a-b| <= atol + rtol*max(|a|,|b|, typical magnitude of b)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, f"{what}: {a.shape} values, expected {b.shape}"
    if a.size == 0:
        return
    fin = b[np.isfinite(b)]
    scale = np.abs(fin).max() if fin.size else 0.0
    tol = atol + rtol * scale + 1e-9 * scale
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= tol + rtol * np.abs(b)
    ok |= a == b
    if equal_nan:
        ok |= np.isnan(a) & np.isnan(b)
    if not ok.all():
        j = int(np.argmin(ok))
        raise AssertionError(f"{what}: at position {j}: got {a.flat[j]!r}, expected {b.flat[j]!r} "
                             f"({int((~ok).sum())} of {ok.size} differ)")


def same_index(i, epochs, freq=None, tz=Ellipsis, what=""):
    from .gen import epochs as ep
    assert isinstance(i, pd.DatetimeIndex), f"{what}: index is {type(i)}"
    got = ep(i)
    assert got == list(epochs), (f"{what}: index has {len(got)} stamps {_fmt(got)}, expected {len(epochs)} {_fmt(epochs)}")
    if tz is not Ellipsis:
        assert str(i.tz) == str(tz), f"{what}: timezone {i.tz}, expected {tz}"
    if freq is not None:
        assert i.freq is not None, f"{what}: index lost its frequency"
        f = pd.tseries.frequencies.to_offset(freq)
        assert i.freq == f, f"{what}: frequency {i.freq}, expected {f}"


def _fmt(e):
    e = list(e)
    s = [str(pd.Timestamp(x, unit="s")) for x in e[:2]] + (["..."] if len(e) > 3 else []) + \
        [str(pd.Timestamp(x, unit="s")) for x in e[max(2, len(e) - 1):]]
    return "[" + ", ".join(s) + "]"
