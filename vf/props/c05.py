import numpy as np
from ..core import *
from .. import ref
from .c01 import relayout


def gen():
    s = st()

    def of(n, data):
        return case(n=n, w=s.one_of(s.integers(0, (n - 2) // 2), s.just((n - 2) // 2), s.integers(0, min(5, (n - 2) // 2))).map(lambda h: 2 * h + 1),
                    data=data, dtype=s.sampled_from(["float32", "float32", "float64", "int32"]), layout=s.sampled_from(["c", "c", "strided", "reversed", "column"]))
    # the selection is quadratic on ordered or heavily tied data: these stay short
    degenerate = s.one_of(logint(2, 250), s.integers(2, 30)).flatmap(lambda n: of(n, s.one_of(
        arrays(n), arrays(n, kinds=("walk", "int"), amax=2), s.lists(s.integers(0, 3), min_size=n, max_size=n).map(lambda v: {"k": "list", "v": v}) if n <= 60 else arrays(n))))
    random = logint(2, 2000).flatmap(lambda n: of(n, arrays(n, kinds=("noise", "uniform", "wide"))))
    return s.one_of(degenerate, degenerate, degenerate, random)


def run(c):
    import riptide
    n, w = c["n"], c["w"]
    x = make_array(c["data"])
    if c["dtype"] == "int32":
        x = np.round(np.clip(x, -2e9, 2e9)).astype(np.float32).astype(float)
    v = x.astype(c["dtype"])
    if c["layout"] == "column":
        big = np.full((n, 3), 12345, dtype=v.dtype)
        big[:, 1] = v
        v = big[:, 1]
    else:
        v = relayout(v, c["layout"])
    keep = v.copy()
    y = call(riptide.running_median, v, w)
    require(same(v, keep), "running_median modified its input")
    r = ref.running_median(f32(x), w)
    require(y.shape == (n,), f"shape {y.shape}")
    bad = np.flatnonzero(y != r)
    require(bad.size == 0, f"running median of {n} samples, width {w}: " + (f"element {bad[0]} is {y[bad[0]]!r}, expected {r[bad[0]]!r}" if bad.size else ""))
    lb = [c["layout"], "w=1" if w == 1 else "w=max" if w >= n - 2 else "w"]
    if len(np.unique(x)) < n:
        lb.append("ties")
    if w == 1 or len(np.unique(x)) == 1:
        lb.append("trivial")
    return lb


def gen_large():
    s = st()
    return sizes(2000, 200000).flatmap(lambda n: case(n=n, w=s.one_of(logint(1, min(n // 2 - 1, 4 * 10 ** 6 // n)), s.integers(0, min(n // 2 - 1, 4 * 10 ** 6 // n))).map(lambda h: 2 * h + 1), seed=seeds(), kind=s.sampled_from(["noise", "uniform", "big"])))


def run_large(c):
    import riptide
    n, w = c["n"], c["w"]
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    x = {"noise": lambda: rng.normal(size=n), "uniform": lambda: rng.random(n), "big": lambda: 1e6 + rng.normal(size=n) * 1e4}[c["kind"]]().astype(np.float32)
    y = call(riptide.running_median, x, w)
    require(y.shape == (n,), f"shape {y.shape}")
    h = w // 2
    p = np.pad(x, h, mode="edge")
    k = np.unique(np.concatenate([np.arange(20), n - 1 - np.arange(20), np.clip(h + np.arange(-5, 6), 0, n - 1), np.clip(n - h + np.arange(-5, 6), 0, n - 1), rng.integers(0, n, size=200)]))
    for i in k:
        e = np.partition(p[i:i + w], h)[h]
        require(y[i] == e, f"running median of {n} samples, width {w}: element {i} is {y[i]!r}, expected {e!r}")
    return ["w>1000" if w > 1000 else "w<=1000"] + (["trivial"] if w == 1 else [])


def gen_bad():
    s = st()
    return logint(1, 500).flatmap(lambda n: s.one_of(
        case(n=n, w=s.integers(1, n).map(lambda k: 2 * k)), case(n=n, w=s.integers(n, n + 200)), case(n=n, w=s.just(0))))


def run_bad(c):
    import riptide
    n, w = c["n"], c["w"]
    if w % 2 and w < n:
        return ["trivial"]
    must_raise(ValueError, riptide.running_median, np.arange(n, dtype=np.float32), w)
    return ["even" if w % 2 == 0 else "too-wide"]


PROP = Prop("C05", [
    Sub("values", gen, run, 3000, 60000, "arrays with ties, monotone, alternating, of many magnitudes; widths 1 to N-1; memory layouts; exact equality with a brute-force median over the edge-padded input; non-trivial: width > 1 and data not constant", shards=(2, 6)),
    Sub("large", gen_large, run_large, 60, 600, "up to 200000 samples and widths of thousands, checked at 250 samples; non-trivial: width > 1", shards=(2, 6)),
    Sub("bad", gen_bad, run_bad, 300, 2000, "even or too wide windows must raise ValueError"),
], assumptions=["data are finite"])
