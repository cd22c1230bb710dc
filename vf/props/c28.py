import numpy as np
from ..core import *
from .c01 import relayout


def gen():
    s = st()
    return often(30, logint(1, 3000), logint(3000, 10 ** 6)).flatmap(lambda n: case(
        n=n, x=arrays(n, kinds=("int", "spikes", "ramp")), y=arrays(n, kinds=("int", "spikes")),
        k=s.one_of(s.integers(0, n), s.integers(0, 4).map(lambda q: q * n), s.integers(0, 3).flatmap(lambda q: s.sampled_from([q * n + 1, max(0, q * n - 1)])), logint(0, 10**9), s.sampled_from([31, 32, 40, 62]).flatmap(lambda e: s.integers(-n - 1, 2 * n).map(lambda d: 2**e + d)), s.integers(2**31, 2**63 - 1)),
        dtype=s.sampled_from(["float32", "float32", "float64"]), layout=s.sampled_from(["c", "c", "c", "strided", "reversed"])))


def attempt(layout, fn, *a):
    if layout == "c":
        return call(fn, *a)
    try:
        return fn(*a)
    except ValueError:
        return None


def run(c):
    from riptide import libcpp
    n, k = c["n"], c["k"]
    X, Y = make_array(c["x"]), make_array(c["y"])
    x, y = relayout(X.astype(c["dtype"]), c["layout"]), relayout(Y.astype(c["dtype"]), c["layout"])
    r = attempt(c["layout"], libcpp.rollback, x, k)
    if r is not None:
        require(r.dtype == np.float32 and np.array_equal(r, np.roll(X, -(k % n))), f"rollback of {n} elements by {k}")
    r = attempt(c["layout"], libcpp.fused_rollback_add, x, y, k)
    if r is not None:
        require(r.dtype == np.float32 and np.array_equal(r, X + np.roll(Y, -(k % n))), f"fused_rollback_add of {n} elements by {k}")
    require(np.array_equal(x, X) and np.array_equal(y, Y), "inputs modified")
    return ["k=0" if k == 0 else "k<n" if k < n else "k%n=0" if k % n == 0 else "k>2^31" if k >= 2**31 else "k>n"] + (["trivial"] if n == 1 or k % n == 0 else [])


def gen_cps():
    s = st()
    return often(30, logint(1, 2000), logint(2000, 10 ** 5)).flatmap(lambda n: case(
        n=n, x=arrays(n, kinds=("int", "spikes", "const", "noise")),
        nsum=s.one_of(s.integers(1, n), s.integers(n, 2 * n), s.integers(1, 6).map(lambda q: q * n), s.integers(1, 6).map(lambda q: q * n + 1), logint(1, 20 * n)),
        layout=s.sampled_from(["c", "c", "c", "strided", "reversed"])))


def run_cps(c):
    from riptide import libcpp
    n, ns = c["n"], c["nsum"]
    X = make_array(c["x"])
    x = relayout(f32(X), c["layout"])
    r = attempt(c["layout"], libcpp.circular_prefix_sum, x, ns)
    if r is None:
        return ["refused-layout", "trivial"]
    full = np.resize(X, ns)
    e = np.cumsum(full)
    tol = 3 * 6e-8 * np.maximum.accumulate(np.abs(e)) + (ns // n + 2) * 6e-8 * abs(X.sum()) + 1e-10 * np.abs(X).sum() * (ns // n + 1)
    if c["x"]["k"] != "noise" and np.abs(full).sum() < 2**24:
        tol = 0.0
    check_close(r, e, tol, f"circular_prefix_sum of {n} elements, nsum={ns}")
    require(r.dtype == np.float32 and np.array_equal(x, X), "dtype or input modified")
    return ["ns<n" if ns < n else "ns=n" if ns == n else "ns<=2n" if ns <= 2 * n else "ns>2n"] + (["exact-multiple"] if ns % n == 0 else [])


def gen_bad():
    s = st()
    return case(n=s.integers(1, 30), d=s.integers(1, 30), k=s.integers(0, 50), swap=s.booleans())


def run_bad(c):
    from riptide import libcpp
    a, b = np.ones(c["n"], dtype=np.float32), np.ones(c["n"] + c["d"], dtype=np.float32)
    if c["swap"]:
        a, b = b, a
    must_raise(ValueError, libcpp.fused_rollback_add, a, b, c["k"])
    return []


PROP = Prop("C28", [
    Sub("roll", gen, run, 2500, 40000, "sizes, shifts below, equal to, multiple of and far above the size, compared with numpy; non-trivial: the shift moves something", shards=(1, 3)),
    Sub("prefix", gen_cps, run_cps, 2500, 40000, "nsum below, equal, multiples and far above the size, compared with numpy", shards=(1, 3)),
    Sub("bad", gen_bad, run_bad, 100, 500, "arrays of different sizes must be refused"),
])
