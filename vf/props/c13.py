import math
import numpy as np
from ..core import *
from .. import ref


def gen():
    s = st()

    def of(t):
        m, b, f, extra = t
        N = max(2, int(math.ceil((m + extra) * b * f)) + 1)
        if extra == -1:     # a whole number of periods, up to rounding; with bins as long as the samples, or longer
            N = m * b if f < 1.5 else int(m * b * f)
        return case(whole=s.just(m if extra == -1 else 0), N=s.just(N), b=s.just(b), f=s.just(f), data=arrays(N, kinds=("noise", "int", "walk", "uniform", "spikes", "const", "ramp"), amax=50), tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5, 1 / 3, 7.0]),
                    sub=s.one_of(s.sampled_from(["none", "one", "all"]), s.integers(1, 999).map(lambda v: v / 1000), s.integers(1, 999).map(lambda v: v / 1000)))
    return s.tuples(s.one_of(s.integers(1, 40), logint(1, 300)), s.one_of(s.integers(1, 12), logint(1, 150)), s.one_of(finite(1.001, 3.0), finite(1.001, 30.0), s.sampled_from([1.5, 2.0, 3.0, 4.25])),
                    s.one_of(s.just(-1), s.just(0.0), finite(0, 0.99))).filter(lambda t: t[0] * t[1] * t[2] < 30000).flatmap(of)


def gen_large():
    """many periods, many bins"""
    s = st()
    return s.tuples(sizes(1, 100000), sizes(1, 20000), finite(1.001, 30.0), finite(0, 0.99)).filter(lambda t: 20000 < t[0] * t[1] * t[2] < 2e6).flatmap(
        lambda t: case(whole=s.sampled_from([0, t[0]]), N=s.just(int(t[0] * t[1] * t[2] + t[3] * t[1] * t[2]) + 2), b=s.just(t[1]), f=s.just(t[2]), data=case(k=s.sampled_from(["noise", "int", "walk"]), n=s.just(int(t[0] * t[1] * t[2] + t[3] * t[1] * t[2]) + 2), s=seeds(), a=s.just(20)),
                       tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5]), sub=s.one_of(s.sampled_from(["none", "one", "all"]), s.integers(1, 999).map(lambda v: v / 1000))))


def run(c):
    import riptide
    N, b, dt = c["N"], c["b"], c["tsamp"]
    x = make_array(c["data"])
    if c["whole"]:
        m = c["whole"]
        P = N * dt / m
        f = N / (m * b)
    else:
        P = c["f"] * b * dt
        f = (P / b) / dt
        if not P <= N * dt or not f > 1:
            raise Skip("outside the domain by rounding")
        if abs(N / f - round(N / f)) < 1e-9 * N and (round(N / f) % b == 0):
            raise Skip("number of periods hinges on rounding")
        m = ref.downsampled_size(N, f) // b
        if m < 1:
            raise Skip("no whole period")
    if f == 1:
        y, t = x, np.zeros(N)
    else:
        y, t = ref.downsample(x, f if N / f >= m * b else np.nextafter(f, 0))
    k = {"none": None, "one": 1, "all": m}.get(c["sub"], None) if isinstance(c["sub"], str) else 1 + int(c["sub"] * (m - 1) + 0.5)
    sc = (m * f) ** -0.5
    Y = y[:m * b].reshape(m, b) * sc
    tY = (t[:m * b].reshape(m, b) * sc if np.ndim(t) else np.full((m, b), t * sc)) + 1e-6 * np.abs(Y)
    ts = riptide.TimeSeries(f32(x), dt, metadata={"source_name": "x"})
    meta = dict(ts.metadata)
    out = call(ts.fold, P, b, subints=k)
    require(same(ts.data, f32(x)) and dict(ts.metadata) == meta and ts.tsamp == dt, "fold modified the time series")
    extra = (["whole-periods"] if c["whole"] else []) + (["bins=samples"] if f == 1 else [])
    prof, tprof = Y.sum(axis=0), tY.sum(axis=0) + 2e-7 * m * np.abs(Y).max()
    what = f"fold(P={P!r}, bins={b}, subints={k}) of {N} samples of {dt} s, {m} periods"
    if k == 1 or m == 1:
        check_close(out, prof, tprof, what)
        return ["profile"] + extra + (["trivial"] if m == 1 or b == 1 else [])
    if k is None or k == m:
        check_close(out, Y, tY, what)
        lb = ["all"]
    else:
        v = m / k
        lo = np.arange(k) * v
        if m * k < 100000:
            W = np.clip(np.minimum((lo + v)[:, None], np.arange(m)[None, :] + 1) - np.maximum(lo[:, None], np.arange(m)[None, :]), 0, 1)
            exp, te, ae = W @ Y, W @ tY, (W > 0).astype(float) @ np.abs(Y)
        else:
            def between(A):
                S = np.concatenate((np.zeros((1, b)), np.cumsum(A, axis=0), np.zeros((1, b))))
                A = np.concatenate((A, np.zeros((1, b))))
                e = np.minimum(np.arange(k + 1) * v, m)
                i = e.astype(int)
                at = S[np.minimum(i, m)] + (e - i)[:, None] * A[i]
                return np.diff(at, axis=0)
            exp, te = between(Y), between(tY)
            ae = between(np.abs(Y)) + 2 * np.abs(Y).max()
        tol = te + 3e-7 * (v + 4) * ae + 1e-12 * m * np.abs(Y).max()
        check_close(out, exp, tol, what)
        lb = ["subints"] + (["whole"] if m % k == 0 else ["fractional"])
    require(out.dtype == np.float32, f"dtype {out.dtype}")
    one = call(ts.fold, P, b, subints=1)
    check_close(out.astype(float).sum(axis=0), one, 4 * tprof + 1e-5 * np.abs(Y).sum(axis=0), what + ": sum over subints against the profile")
    # calibrated: white noise folds to unit-variance noise, times the variance lost by downsampling
    return lb + extra + (["trivial"] if b == 1 or not np.any(x) else [])


def gen_bad():
    s = st()
    return case(N=s.integers(20, 3000), dt=s.sampled_from([1.0, 1e-3, 0.1]), how=s.sampled_from(["long", "fine", "zero", "neg", "many"]), u=finite(0.01, 0.99), b=s.integers(1, 30), k=s.integers(1, 60))


def run_bad(c):
    import riptide
    N, dt, b, u = c["N"], c["dt"], c["b"], c["u"]
    T = N * dt
    how = c["how"]
    k = None
    P = max(b * dt * 1.5, u * T)
    if how == "long":
        P = T * (1.0001 + u)
    elif how == "fine":
        P = b * dt * (0.999999 if u > 0.7 else u)
    elif how == "zero":
        k = 0
    elif how == "neg":
        k = -c["k"]
    elif how == "many":
        k = int(math.floor(T / P)) + c["k"]
        if k <= T / P * (1 + 1e-9):
            k += 1
    if how != "long" and P > T:
        return ["trivial"]
    if how == "fine" and P / b >= dt:
        return ["trivial"]
    ts = riptide.TimeSeries(np.ones(N, dtype=np.float32), dt)
    must_raise(ValueError, ts.fold, P, b, subints=k)
    return [how]


# ---- a pulse train folded at its period keeps its phase, and noise its variance

def gen_phase():
    s = st()
    return case(b=s.integers(8, 128), f=finite(1.05, 8.0), m=s.integers(4, 40), phi=finite(0.0, 0.999), dt=s.sampled_from([1.0, 1e-3]), off=s.integers(0, 3))


def run_phase(c):
    import riptide
    from .c10 import signal
    b, m, f = c["b"], c["m"], c["f"]
    P = b * f
    N = int((m + 0.5) * P)
    ducy = max(0.1, 4.0 / b)
    x = signal(N, P, ducy, c["phi"], 10.0)
    ts = riptide.TimeSeries(f32(x), c["dt"])
    X = call(ts.fold, P * c["dt"], b)
    phases = (np.arange(b) + 0.5) / b
    # sample i covers [i, i + 1), the pulse is centred on the start of its sample
    exp = (c["phi"] + 0.5 / P) % 1.0
    for i, row in enumerate(X.astype(float)):
        got = np.angle((row * np.exp(2j * np.pi * phases)).sum()) / (2 * np.pi)
        d = (got - exp + 0.5) % 1 - 0.5
        require(abs(d) < 0.12 / b + 1e-3, f"period {i} of {m}: pulse at phase {got % 1:.4f}, expected {exp:.4f} ({b} bins, P={P} samples)")
    return ["narrow" if ducy == 0.1 else "wide"]


PROP = Prop("C13", [
    Sub("values", gen, run, 2500, 80000, "folds of 1 to 300 periods into 1 to 150 bins, downsampling 1 to 30, any allowed number of subints (None, 1, all, between), values against float64 integration; shape, dtype, conservation; input untouched; non-trivial: several periods and bins, data not all zero", shards=(3, 6)),
    Sub("large", gen_large, run, 60, 1000, "the same with up to 100000 periods or 20000 bins", shards=(1, 3)),
    Sub("phase", gen_phase, run_phase, 200, 4000, "pulse trains keep a constant phase over all the periods of the fold", shards=(1, 2)),
    Sub("bad", gen_bad, run_bad, 300, 3000, "too long periods, too fine bins, subints < 1 or too many must raise ValueError"),
], assumptions=["periods within 1e-9 of a whole number of periods in the data without being it are skipped"])
