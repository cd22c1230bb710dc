import math
import numpy as np
from ..core import *
from .. import ref
from .c01 import relayout


def factors(N):
    s = st()
    opts = [
        finite(1.0, float(N)),
        logfloat(1.0, float(N)),
        logint(1, N).map(float),
        logint(1, N).flatmap(lambda k: s.sampled_from([-1e-3, 1e-3, -1e-9, 1e-9, -1e-6, 1e-6, 0.5, 1 / 3]).map(lambda d: k + d)),
        logint(1, N).map(lambda q: N / q),
        s.sampled_from([float(N), math.nextafter(1.0, 2), 1.5, 2.0, math.nextafter(2.0, 3), math.nextafter(2.0, 1), 2.5, 1.01]),
        logint(2, 2 * N).map(lambda q: N / (q + 0.5)),
    ]
    return s.one_of(opts).filter(lambda f: 1.0 < f <= N)


def gen():
    s = st()
    return s.one_of(logint(2, 5000), s.integers(2, 40)).flatmap(
        lambda N: case(N=N, f=factors(N), data=arrays(N), dtype=s.sampled_from(["float32", "float32", "float64", "int16"]),
                       layout=s.sampled_from(["c", "c", "c", "strided", "reversed"]), via=s.sampled_from(["array", "array", "ts", "ts_inplace", "libcpp"])))


def run(c):
    import riptide
    from riptide import libcpp
    N, f = c["N"], c["f"]
    x = make_array(c["data"])
    if c["dtype"] == "int16":
        x = np.clip(np.round(x), -30000, 30000)
    xin = relayout(x.astype(c["dtype"]), c["layout"])
    keep = xin.copy()
    n = ref.downsampled_size(N, f)
    if c["via"] in ("array", "libcpp"):
        fn = riptide.downsample if c["via"] == "array" else libcpp.downsample
        if c["layout"] == "c":
            y = call(fn, xin, f)
        else:
            try:
                y = fn(xin, f)
            except ValueError:
                return ["refused-layout", "trivial"]
    else:
        if c["layout"] != "c":
            return ["trivial"]
        ts = call(riptide.TimeSeries.from_numpy_array, xin, 0.5)
        if c["via"] == "ts":
            o = call(ts.downsample, f)
            require(ts.nsamp == N and np.array_equal(ts.data, f32(x)) and ts.tsamp == 0.5, "downsample modified the original TimeSeries")
        else:
            call(ts.downsample, f, inplace=True)
            o = ts
        require(abs(o.tsamp - 0.5 * f) <= 1e-15 * f, f"tsamp {o.tsamp}, expected {0.5 * f}")
        y = o.data
    require(same(xin, keep), "downsample modified its input")
    require(y.dtype == np.float32 and y.ndim == 1, f"dtype {y.dtype}")
    require(y.size == n, f"downsampling {N} samples by {f!r} gave {y.size} samples, expected {n}")
    r, tol = ref.downsample(f32(x).astype(float), f)
    check_close(y, r, tol, f"downsample of {N} samples by {f!r}")
    if N <= 40:
        check_close(y, np.asarray(ref.downsample_small(f32(x).astype(float), f)), tol + 1e-9 * np.abs(x).max(), "downsample (sample by sample)")
    lb = ["integer" if f == int(f) else "near-integer" if abs(f - round(f)) < 1e-2 else "fractional", c["via"]]
    lb.append("f<2" if f < 2 else "f<10" if f < 10 else "f>=10")
    if N / f == int(N / f):
        lb.append("divides")
    if not x.any():
        lb.append("trivial")
    return lb


def gen_bad():
    s = st()
    return s.one_of(
        case(N=logint(1, 1000), f=s.one_of(s.sampled_from([1.0, 0.0, -1.0, 0.999, float("nan"), float("-inf"), math.nextafter(1.0, 0)]), finite(-100.0, 1.0)), over=s.just(None)),
        case(N=logint(1, 1000), f=s.just(0.0), over=s.one_of(s.sampled_from([1e-9, 1e-6, 0.5, 1.0, 1e9, float("inf")]), logfloat(1e-6, 1e6))),
    )


def run_bad(c):
    import riptide
    N = c["N"]
    f = c["f"] if c["over"] is None else N * (1 + c["over"])
    if c["over"] is not None and not f > N:
        return ["trivial"]
    x = np.ones(N, dtype=np.float32)
    must_raise(ValueError, riptide.downsample, x, f)
    ts = riptide.TimeSeries.from_numpy_array(x, 0.25)
    must_raise(ValueError, ts.downsample, f)
    must_raise(ValueError, ts.downsample, f, inplace=True)
    require(ts.nsamp == N and ts.tsamp == 0.25 and (ts.data == 1).all(), "a refused in-place downsampling changed the TimeSeries")
    return ["f<=1" if c["over"] is None else "f>N"]


def gen_big():
    s = st()
    return sizes(20000, 400000).flatmap(lambda N: case(N=N, f=factors(N), data=arrays(N, kinds=("int", "noise", "ramp"))))


def run_big(c):
    import riptide
    N, f = c["N"], c["f"]
    x = make_array(c["data"])
    y = call(riptide.downsample, f32(x), f)
    require(y.size == ref.downsampled_size(N, f), f"size {y.size}")
    r, tol = ref.downsample(x, f)
    check_close(y, r, tol, f"downsample of {N} samples by {f!r}")
    return ["f<10" if f < 10 else "f>=10"]


def gen_huge():
    """More samples than float32 or 24-bit indices can tell apart."""
    s = st()
    return case(N=s.one_of(s.integers(2 ** 24, 2 ** 24 + 10 ** 6), s.integers(2 ** 24, 4 * 10 ** 7)), f=s.one_of(finite(1.01, 9.0), s.sampled_from([2.0, 3.0, 1.5, 4.25]), logfloat(5.0, 1e6)), seed=seeds())


def run_huge(c):
    import riptide
    N, f = c["N"], c["f"]
    x = np.resize(np.random.Generator(np.random.PCG64(c["seed"])).integers(-50, 51, size=100003).astype(np.float32), N)
    y = call(riptide.downsample, x, f)
    n = ref.downsampled_size(N, f)
    require(y.size == n, f"downsampling {N} samples by {f!r} gave {y.size} samples, expected {n}")
    k = np.unique(np.concatenate([np.arange(max(0, n - 300), n), np.linspace(0, n - 1, 300).astype(int)]))
    C = np.concatenate(([0.0], np.cumsum(x, dtype=float)))     # exact: integers

    def F(t):
        i = np.minimum(np.floor(t).astype(np.int64), N - 1)
        return C[i] + (t - i) * x[i]
    a, b = k * f, np.minimum((k + 1) * f, N)
    tol = (1e-7 * f + 1e-8) * 100 * np.sqrt(f) + 4e-16 * N * 200 + 1e-4
    check_close(y[k], F(b) - F(a), np.full(k.size, tol), f"downsample of {N} samples by {f!r} (at {k.size} samples)")
    return ["f<10" if f < 10 else "f>=10"]


PROP = Prop("C03", [
    Sub("values", gen, run, 3000, 60000, "arrays and factors (integers, divisors, near-integers, just above 1, N) against the float64 integral, through all three entry points; non-trivial: non-zero data, layout not refused", shards=(2, 6)),
    Sub("big", gen_big, run_big, 80, 1500, "inputs of up to 400000 samples", shards=(1, 3)),
    Sub("huge", gen_huge, run_huge, 6, 60, "inputs of 2^24 to 40 million samples, checked at 600 output samples", shards=(1, 3)),
    Sub("bad", gen_bad, run_bad, 300, 3000, "factors outside (1, N] must raise ValueError and leave the TimeSeries alone"),
])
