import math
import numpy as np
from ..core import *
from .. import ref


def shapes(maxsize):
    s = st()
    rows = s.one_of(logint(1, 600), s.sampled_from([2**k + d for k in range(1, 10) for d in (-1, 0, 1)]))
    return rows.flatmap(lambda m: s.tuples(s.just(m), logint(1, max(1, min(2000, maxsize // m)))))


def gen_exact():
    return shapes(60000).flatmap(lambda mp: case(m=mp[0], p=mp[1], data=arrays(mp[0] * mp[1], kinds=("int", "int", "spikes", "const"), amax=1000),
                                                 dtype=st().sampled_from(["float32", "float32", "float64", "int64"])))


def run_exact(c):
    import riptide
    m, p = c["m"], c["p"]
    x = make_array(c["data"]).reshape(m, p).astype(c["dtype"])
    keep = x.copy()
    y = call(riptide.ffa2, x)
    require(same(x, keep), "ffa2 modified its input")
    require(isinstance(y, np.ndarray) and y.dtype == np.float32, f"output dtype {getattr(y, 'dtype', type(y))}")
    check_close(y, ref.ffa(x), 0.0, f"ffa2 of {m} x {p}")
    lb = ["m=1" if m == 1 else "m=2" if m == 2 else "m<32" if m < 32 else "m<128" if m < 128 else "m>=128", "odd" if m % 2 else "even"]
    if p == 1:
        lb.append("p=1")
    if m > p:
        lb.append("m>p")
    if m == 1 or p == 1 or not keep.any():
        lb.append("trivial")
    return lb


def gen_tall():
    s = st()
    rows = s.one_of(sizes(4000, 140000), s.sampled_from([2 ** k + d for k in range(12, 18) for d in (-1, 0, 1, 2, 5)]))
    return rows.flatmap(lambda m: s.integers(2, max(2, min(9, 300000 // m))).flatmap(lambda p: case(m=s.just(m), p=s.just(p), data=arrays(m * p, kinds=("int",), amax=100), dtype=s.just("float32"))))


def run_tall(c):
    run_exact(c)
    return ["m>=16384" if c["m"] >= 16384 else "m<16384"]


def gen_float():
    return shapes(30000).flatmap(lambda mp: case(m=mp[0], p=mp[1], data=arrays(mp[0] * mp[1], kinds=("noise", "uniform", "wide", "ramp"))))


def run_float(c):
    import riptide
    m, p = c["m"], c["p"]
    x = make_array(c["data"]).reshape(m, p)
    y = call(riptide.ffa2, f32(x))
    tol = 1.2e-7 * (math.ceil(math.log2(m)) + 2) * ref.ffa(np.abs(x)) + 1e-37
    check_close(y, ref.ffa(x), tol, f"ffa2 of {m} x {p}")
    return ["m>p"] if m > p else ["m<=p"]


def gen_ffa1():
    s = st()
    usual = sizes(1, 20000).flatmap(lambda N: s.tuples(s.just(N), s.one_of(logint(1, N), s.integers(1, N))))
    # a whole number of periods
    whole = logint(1, 2000).flatmap(lambda p: s.tuples(logint(1, max(1, 20000 // p)), s.just(p), s.sampled_from([0, 0, 0, 1, -1]))).map(lambda t: (t[0] * t[1] + (t[2] if t[0] > 1 else 0), t[1]))
    return s.one_of(usual, whole).flatmap(lambda Np: (
        case(N=Np[0], p=Np[1], data=arrays(Np[0], kinds=("int",)), tail=s.integers(-1000, 1000),
                       dtype=s.sampled_from(["float32", "float64"]), layout=s.sampled_from(["c", "c", "strided", "reversed"]))))


def relayout(x, layout):
    if layout == "strided":
        b = np.full(2 * x.size, 7, dtype=x.dtype)
        b[::2] = x
        return b[::2]
    if layout == "reversed":
        return x[::-1].copy()[::-1]
    return x


def run_ffa1(c):
    import riptide
    N, p = c["N"], c["p"]
    x = make_array(c["data"]).astype(c["dtype"])
    m = N // p
    v = relayout(x, c["layout"])
    if c["layout"] == "c":
        y = call(riptide.ffa1, v, p)
    else:   # a non-contiguous view is either refused or transformed correctly
        try:
            y = riptide.ffa1(v, p)
        except ValueError:
            return ["refused-layout", "trivial"]
    require(y.dtype == np.float32, "dtype")
    check_close(y, ref.ffa(x[:m * p].reshape(m, p)), 0.0, f"ffa1 N={N} p={p}")
    require(np.array_equal(x, make_array(c["data"])), "ffa1 modified its input")
    lb = []
    if N % p:
        x2 = x.copy()
        x2[m * p:] = c["tail"]
        y2 = call(riptide.ffa1, x2, p)
        require(same(y, y2), f"trailing samples matter: N={N} p={p}")
        lb.append("tail")
    if m == 1 or p == 1:
        lb.append("trivial")
    return lb


def gen_rows():
    s = st()
    return case(p=s.one_of(s.integers(1, 300), logint(1, 2000)), k=s.integers(1, 60), d=s.sampled_from([0, 0, 0, 1, -1]), seed=seeds())


def run_rows(c):
    """Forty lengths of data next to whole numbers of periods."""
    import riptide
    p = c["p"]
    x = make_array({"k": "int", "n": (c["k"] + 40) * p, "s": c["seed"], "a": 9}).astype(np.float32)
    for k in range(c["k"], c["k"] + 40):
        N = max(p, k * p + c["d"])
        m = N // p
        y = call(riptide.ffa1, x[:N], p)
        require(y.shape == (m, p), f"ffa1 of {N} samples at base period {p}: shape {y.shape}, expected ({m}, {p})")
        check_close(y[0], x[:m * p].reshape(m, p).sum(axis=0, dtype=np.float64), 0.0, f"first row of ffa1 N={N} p={p}")
    return ["trivial"] if p == 1 else []


def gen_bad():
    s = st()
    return s.one_of(
        case(kind="p", N=s.integers(1, 50), p=s.sampled_from([0, -1, -7, 2.0, 3.5, "3", None])),
        case(kind="p>N", N=s.integers(1, 50), extra=logint(1, 1000)),
        case(kind="ndim", shape=s.lists(s.integers(1, 5), min_size=2, max_size=3), p=s.integers(1, 4)),
        case(kind="ndim2", shape=s.one_of(s.lists(s.integers(1, 5), min_size=3, max_size=4), s.lists(s.integers(1, 5), min_size=1, max_size=1))),
        case(kind="layout2", m=s.integers(2, 40), p=s.integers(2, 40), how=s.sampled_from(["T", "cols", "rows", "rev"]), seed=seeds()),
    )


def run_bad(c):
    import riptide
    k = c["kind"]
    if k == "p":
        must_raise(ValueError, riptide.ffa1, np.zeros(c["N"], dtype=np.float32), c["p"])
    elif k == "p>N":
        must_raise(ValueError, riptide.ffa1, np.zeros(c["N"], dtype=np.float32), c["N"] + c["extra"])
    elif k == "ndim":
        must_raise(ValueError, riptide.ffa1, np.zeros(c["shape"], dtype=np.float32), c["p"])
    elif k == "ndim2":
        must_raise(ValueError, riptide.ffa2, np.zeros(c["shape"], dtype=np.float32))
    else:
        x = f32(make_array({"k": "int", "n": c["m"] * c["p"], "s": c["seed"], "a": 9}).reshape(c["m"], c["p"]))
        big = np.repeat(np.repeat(x, 2, axis=0), 2, axis=1)
        v = {"T": x.T.copy().T, "cols": big[::2, ::2], "rows": big[::2, :c["p"]], "rev": x[::-1].copy()[::-1]}[c["how"]]
        try:
            y = riptide.ffa2(v)
        except ValueError:
            return [k, "refused-layout"]
        check_close(y, ref.ffa(v), 0.0, "ffa2 of a non-contiguous view")
    return [k]


def gen_large():
    s = st()
    return case(m=s.one_of(sizes(600, 20000), s.sampled_from([2**k + d for k in range(10, 15) for d in (-1, 0, 1)])), p=s.integers(12, 64),
                rows=s.lists(s.floats(0, 1), min_size=1, max_size=3), bin=s.integers(0, 10**6))


def run_large(c):
    """Single rows set: where does row i go in each output row? Valid for any m."""
    import riptide
    m = c["m"]
    p = c["p"]
    if m > 4000:
        p = min(p, 40)
    x = np.zeros((m, p), dtype=np.float32)
    b0 = c["bin"] % p
    s = np.arange(m)
    tol = 0.35 * math.log2(m) + 0.5
    prev = None
    for frac in sorted(c["rows"]):
        i = min(m - 1, int(frac * m))
        x[:] = 0
        x[i, b0] = 1
        y = call(riptide.ffa2, x)
        require(y.shape == (m, p), "shape")
        require(np.array_equal(y.sum(axis=1), np.ones(m)) and ((y == 0) | (y == 1)).all(), f"row {i} of {m}: a unit sample is not moved as a whole")
        pos = y.argmax(axis=1)
        d = (b0 - pos) % p                      # rotation modulo p
        dev = (d - i * s / (m - 1.0) + p / 2) % p - p / 2
        require(np.abs(dev).max() <= tol, f"m={m} row {i}: drift departs from the straight line by {np.abs(dev).max():.2f} bins at s={int(np.abs(dev).argmax())} (allowed {tol:.2f})")
        if i == 0:
            require((d == 0).all(), "first row moved")
        if i == m - 1:
            require((d == s % p).all(), "last row is not rotated by s")
        # never decreasing in s either, and steps of at most one
        step = np.diff(np.round(dev + i * s / (m - 1.0)))
        require(((step == 0) | (step == 1)).all() or m <= 2, f"m={m} row {i}: drift is not a monotone staircase")
    return ["m>=4096" if m >= 4096 else "m<4096"]


PROP = Prop("C01", [
    Sub("exact", gen_exact, run_exact, 1200, 20000, "m x p arrays of integers (sums exact in float32) compared bit for bit with the recursive definition in exact rationals; non-trivial: m > 1, p > 1, data not all zero", shards=(2, 6)),
    Sub("tall", gen_tall, run_tall, 40, 600, "the same, bit for bit, for m from 4000 to 140000 periods", shards=(2, 6)),
    Sub("float", gen_float, run_float, 400, 6000, "real-valued data of many scales within the float32 summation error bound", shards=(1, 3)),
    Sub("ffa1", gen_ffa1, run_ffa1, 600, 10000, "time series and base periods, trailing samples replaced; non-trivial: m > 1 and p > 1", shards=(1, 4)),
    Sub("rows", gen_rows, run_rows, 300, 4000, "forty numbers of samples each, next to consecutive whole numbers of periods: shape and first row; non-trivial: p > 1"),
    Sub("bad", gen_bad, run_bad, 300, 2000, "inputs to be refused (or, for layouts, transformed correctly)"),
    Sub("large", gen_large, run_large, 60, 600, "single-sample probes of the drift of a row for m up to 20000", shards=(1, 4)),
], assumptions=["data are finite; float32 sums of integers below 2^24 are exact"])
