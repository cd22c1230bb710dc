import numpy as np
from ..core import *
from .. import ref


def params():
    """(n, w, minpts): mostly valid."""
    s = st()
    return s.one_of(s.integers(1, 20), s.integers(1, 60), often(3, s.integers(1, 60), s.just(50))).map(lambda k: 2 * k + 1).flatmap(
        lambda mp: s.one_of(
            # scrunched: factor f >= 2
            logint(2, 30).flatmap(lambda f: s.integers(0, mp - 1).flatmap(lambda r: logint((mp + 1) * f, (mp + 1) * f * 20 + 50).map(lambda n: (n, f * mp + r, mp)))),
            # exact
            s.integers(0, mp - 1).map(lambda h: 2 * h + 1).flatmap(lambda w: logint(max(2, w + 1), w * 20 + 50).map(lambda n: (n, w, mp)))))


def gen():
    s = st()
    return params().flatmap(lambda p: case(n=p[0], w=p[1], minpts=p[2], data=arrays(p[0]), dtype=s.sampled_from(["float32", "float64"]), strided=s.booleans()))


def tolerance(x, factor):
    m = np.abs(x).max() if x.size else 0.0
    return 3e-7 * m * (1 if factor == 1 else (2 + np.log2(factor + 1))) + 1e-37


def run(c):
    import riptide
    n, w, mp = c["n"], c["w"], c["minpts"]
    x = make_array(c["data"])
    v = x.astype(c["dtype"])
    if c["strided"]:
        b = np.full(2 * n, 3.5, dtype=v.dtype)
        b[::2] = v
        v = b[::2]
    keep = v.copy()
    y = call(riptide.fast_running_median, v, w, *([] if mp == 101 else [mp]))      # 101 is the default
    require(same(v, keep), "fast_running_median modified its input")
    r, exact = ref.fast_running_median(f32(x), w, mp)
    factor = max(1, w // mp)
    check_close(y, r, 0.0 if exact else tolerance(x, factor), f"fast_running_median n={n} w={w} minpts={mp}")
    return ["exact" if exact else "scrunched"] + (["trivial"] if np.ptp(x) == 0 else []) + (["remainder"] if n % factor else [])


def gen_ts():
    s = st()
    return params().flatmap(lambda p: case(n=p[0], w=p[1], minpts=p[2], data=arrays(p[0]), tsamp=logfloat(1e-5, 10.0), frac=s.floats(-0.49, 0.49),
                                           off=s.sampled_from([0.0, 100.0, -1e4]), default=s.booleans()))


def run_ts(c):
    import riptide
    n, w, mp = c["n"], c["w"], c["minpts"]
    x = make_array(c["data"])
    dt = c["tsamp"]
    width = (w + c["frac"]) * dt
    if int(round(width / dt)) != w:
        return ["trivial"]
    kw = {} if mp == 101 and c["default"] else {"minpts": mp}
    if c["default"] and w <= 101 and w % 2 == 1 and n > w:
        kw = {}
        mp = 101
    r, exact = ref.fast_running_median(f32(x), w, mp)
    factor = max(1, w // mp)
    tol = tolerance(x, factor) + 3e-7 * np.abs(x).max()
    ts = call(riptide.TimeSeries.from_numpy_array, f32(x), dt, copy=True)
    o = call(ts.deredden, width, **kw)
    require(np.array_equal(ts.data, f32(x)), "deredden modified the original")
    require(o.data.dtype == np.float32 and o.tsamp == ts.tsamp, "dtype or sampling time")
    check_close(o.data, x - r, tol, f"deredden(width={width}, {kw}) of {n} samples of {dt} s")
    call(ts.deredden, width, inplace=True, **kw)
    check_close(ts.data, x - r, tol, f"in-place deredden(width={width}, {kw})")
    # once more: the median is that of the data as they are now
    z = ts.data.copy()
    call(ts.deredden, width, inplace=True, **kw)
    r2, _ = ref.fast_running_median(z, w, mp)
    check_close(ts.data, z.astype(float) - r2, tolerance(z.astype(float), factor) + 3e-7 * np.abs(z).max(initial=0), f"second in-place deredden(width={width}, {kw})")
    # constant offset
    x2 = f32(x + c["off"]).astype(float)
    o2 = call(riptide.TimeSeries.from_numpy_array(f32(x2), dt).deredden, width, **kw)
    check_close(o2.data, o.data, 2 * tol + tolerance(x2, factor) + 1e-6 * np.abs(x2).max(), "deredden with an offset")
    if np.ptp(x) == 0:
        require((np.abs(o.data) <= tol).all(), "deredden of a constant is not zero")
    return ["exact" if exact else "scrunched"]


def gen_huge():
    """more samples than float32 can number"""
    s = st()
    return case(n=s.integers(2 ** 24, 2 ** 25 + 10 ** 6), mp=s.integers(1, 12).map(lambda k: 2 * k + 1), f=s.one_of(s.integers(2, 60), logint(60, 10 ** 5)), r=s.integers(0, 2), seed=seeds(), kind=s.sampled_from(["walk", "noise", "ramp"]))


def run_huge(c):
    import riptide
    n, mp, f = c["n"], c["mp"], c["f"]
    w = f * mp + c["r"] % mp
    k = np.arange(n)
    x = np.resize(np.random.Generator(np.random.PCG64(c["seed"])).normal(size=2 ** 16), n)
    x = (np.cumsum(x - x[:2 ** 16].mean()) if c["kind"] == "walk" else x if c["kind"] == "noise" else k * 1e-4 + x).astype(np.float32)
    y = call(riptide.fast_running_median, x, w, mp)
    require(np.shape(y) == (n,), f"shape {np.shape(y)}")
    m = n // f
    lo = x[:m * f].astype(float).reshape(m, f).mean(axis=1)
    tol = tolerance(x, f)
    h = mp // 2
    for i in [0, m // 3, 2 * m // 3, m - 1 - 2 * h, m - 101]:     # around some of the points of the coarse median
        i = max(0, min(m - 2, i))
        j = np.arange(i, min(m, i + 100))
        med = np.median(lo[np.clip(j[:, None] + np.arange(-h, h + 1), 0, m - 1)], axis=1)
        at = np.arange(i * f + f, min(n, int(j[-1]) * f) if j[-1] < m - 1 else n)
        if at.size > 20000:
            at = at[:: at.size // 20000]
        exp = np.interp(at.astype(float), j * float(f) + 0.5 * (f - 1), med)
        check_close(y[at], exp, tol, f"fast_running_median of {n} samples, w={w}, minpts={mp}, from sample {int(at[0]) if at.size else 0}")
    return [c["kind"]]


def gen_bad():
    s = st()
    return s.one_of(
        case(kind="even", n=s.integers(200, 400), w=s.integers(1, 150), minpts=s.integers(1, 50).map(lambda k: 2 * k)),
        s.integers(1, 20).map(lambda k: 2 * k + 1).flatmap(lambda mp: s.integers(1, 10).flatmap(lambda f: case(
            kind="nofit", n=s.integers(1, max(1, mp * f)), w=s.just(f * mp), minpts=s.just(mp)))),
    )


def run_bad(c):
    import riptide
    x = np.arange(c["n"], dtype=np.float32)
    must_raise((ValueError, IndexError), riptide.fast_running_median, x, c["w"], c["minpts"])
    must_raise((ValueError, IndexError), riptide.TimeSeries.from_numpy_array(x, 1.0).deredden, float(c["w"]), minpts=c["minpts"])
    return [c["kind"]]


PROP = Prop("C06", [
    Sub("fast", gen, run, 1500, 30000, "lengths, widths and minpts on both sides of the scrunching limit against block means + brute-force median + interpolation; exact equality when not scrunched; non-trivial: data not constant", shards=(2, 5)),
    Sub("deredden", gen_ts, run_ts, 800, 15000, "TimeSeries.deredden in and out of place, widths that do not fall on a sample, offsets", shards=(1, 4)),
    Sub("huge", gen_huge, run_huge, 4, 60, "more than 2^24 samples", shards=(1, 3)),
    Sub("bad", gen_bad, run_bad, 200, 1500, "even minpts, windows that do not fit"),
])
