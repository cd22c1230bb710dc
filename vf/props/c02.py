import numpy as np
from fractions import Fraction
from ..core import *


def gen_freq():
    s = st()
    return often(6, s.one_of(logint(2, 50000), s.integers(2, 200)), sizes(50000, 10 ** 9)).flatmap(
        lambda p: s.one_of(logint(1, max(1, 200000 // p)), s.integers(1, 4), logint(1, 3000)).flatmap(
            lambda m: case(p=p, N=s.integers(m * p, m * p + p - 1), dt=s.one_of(s.just(1.0), logfloat(1e-7, 1e3), s.integers(1, 5)))))


def exact(N, p, dt):
    m = N // p
    dt = Fraction(dt)
    f0 = Fraction(1, p)
    if m == 1:
        return [f0 / dt]
    d = f0 * f0 / (m - 1)
    return [(f0 - s * d) / dt for s in range(m)]


def run_freq(c):
    import riptide
    N, p, dt = c["N"], c["p"], c["dt"]
    m = N // p
    kw = {} if dt == 1.0 else {"dt": dt}
    f = call(riptide.ffafreq, N, p, **kw)
    P = call(riptide.ffaprd, N, p, **kw)
    for a, what in ((f, "ffafreq"), (P, "ffaprd")):
        require(isinstance(a, np.ndarray) and a.shape == (m,), f"{what}: shape {getattr(a, 'shape', None)}, expected ({m},)")
    idx = range(m) if m <= 300 else sorted({0, 1, 2, m // 3, m // 2, m - 3, m - 2, m - 1})
    d = Fraction(dt)
    for s in idx:
        e = (Fraction(1, p) - (Fraction(s, (m - 1) * p * p) if m > 1 else 0)) / d
        require(abs(Fraction(float(f[s])) - e) <= e * Fraction(1, 10**12), f"ffafreq(N={N}, p={p}, dt={dt})[{s}] = {f[s]!r}, expected {float(e)!r}")
        require(abs(Fraction(float(P[s])) - 1 / e) <= Fraction(1, 10**12) / e, f"ffaprd(N={N}, p={p}, dt={dt})[{s}] = {P[s]!r}, expected {float(1 / e)!r}")
    require((np.diff(f) < 0).all(), "frequencies are not strictly decreasing")
    require((np.diff(P) > 0).all(), "periods are not strictly increasing")
    return ["m=1" if m == 1 else "m=2" if m == 2 else "m>2"]


def gen_rows():
    s = st()
    return case(p=s.one_of(s.integers(2, 300), logint(2, 5000)), k=logint(1, 1000), d=s.sampled_from([0, 0, 0, 1, -1]), dt=logfloat(1e-6, 10.0))


def run_rows(c):
    """Forty numbers of samples next to whole numbers of periods."""
    import riptide
    p = c["p"]
    for k in range(c["k"], c["k"] + 40):
        N = max(p, k * p + c["d"])
        m = N // p
        f = call(riptide.ffafreq, N, p, dt=c["dt"])
        require(f.shape == (m,), f"ffafreq of {N} samples at base period {p}: shape {f.shape}, expected ({m},)")
        last = (1 / p - (1 / p ** 2 if m > 1 else 0)) / c["dt"]
        require(abs(f[-1] - last) <= 1e-12 / p / c["dt"], f"last of ffafreq(N={N}, p={p}, dt={c['dt']}): {f[-1]!r}, expected {last!r}")
    return []


def gen_pg():
    s = st()
    return s.integers(2, 60).flatmap(lambda p: case(p=p, m=logint(2, 200), extra=s.integers(0, p - 1), tsamp=logfloat(1e-5, 10.0), seed=seeds()))


def run_pg(c):
    """A raw-resolution search of one base period has exactly these trial periods (below p + 1 samples)."""
    from riptide import libcpp, ffaprd
    p, m, dt = c["p"], c["m"], c["tsamp"]
    N = m * p + c["extra"]
    x = f32(make_array({"k": "int", "n": N, "s": c["seed"], "a": 9}))
    P, b, snr = call(libcpp.periodogram, x, dt, np.array([1]), dt * p, dt * p * (1 + 1e-6), p, p)
    # one downsampling cycle; periods up to period_max only: take the wide search instead
    P, b, snr = call(libcpp.periodogram, x, dt, np.array([1]), dt * p, dt * (p + 0.9999), p, p)
    ref = call(ffaprd, N, p, dt=dt)
    n = len(P)
    require(n <= m and n >= 1, f"{n} trials for {m} rows")
    check_close(P, ref[:n], 1e-9 * ref[:n], "periodogram trial periods against ffaprd")
    require((ref[n:] > dt * (p + 0.9999) * (1 - 1e-9)).all(), f"only {n} trial periods: {ref[n]} is missing")
    return []


def gen_bad():
    s = st()
    return s.one_of(
        case(N=s.sampled_from([0, -1, -10, 10.0, "10", None]), p=s.integers(2, 5), dt=s.just(1.0)),
        case(N=s.integers(10, 100), p=s.sampled_from([1, 0, -3, 2.0, "4", None]), dt=s.just(1.0)),
        case(N=s.integers(2, 100), p=s.integers(101, 1000), dt=s.just(1.0)),
        case(N=s.integers(10, 100), p=s.integers(2, 10), dt=s.sampled_from([0, 0.0, -1.0, -1e-9, float("nan")])),
    )


def run_bad(c):
    import riptide
    must_raise(ValueError, riptide.ffafreq, c["N"], c["p"], dt=c["dt"])
    must_raise(ValueError, riptide.ffaprd, c["N"], c["p"], dt=c["dt"])
    return []


PROP = Prop("C02", [
    Sub("freq", gen_freq, run_freq, 1500, 30000, "N, p, dt compared with exact rational arithmetic (1e-12 relative); non-trivial: m > 1", nontrivial=lambda c, l: "m=1" not in l),
    Sub("rows", gen_rows, run_rows, 300, 4000, "forty numbers of samples each, next to consecutive whole numbers of periods: number of trials and the last one"),
    Sub("periodogram", gen_pg, run_pg, 300, 5000, "trial periods of a raw-resolution periodogram compared with ffaprd"),
    Sub("bad", gen_bad, run_bad, 200, 1000, "invalid arguments must raise ValueError"),
])
