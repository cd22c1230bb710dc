import numpy as np
from fractions import Fraction
from ..core import *
from .. import ref


def gen():
    s = st()
    # multiples of 2^-k: differences are exact in float64
    return s.one_of(logint(0, 150), s.integers(0, 12)).flatmap(lambda n: s.tuples(s.integers(1, 400), s.sampled_from([1.0, 0.125, 2.0 ** -20, 3.0, 2.0**20, 2.0 ** -40, 2.0 ** -60, 2.0 ** 60])).flatmap(
        lambda rs: case(v=s.one_of(s.lists(s.integers(-rs[0], rs[0]), min_size=n, max_size=n),
                                   # chains with gaps of r, r + 1
                                   s.lists(s.integers(0, 12), min_size=n, max_size=n).map(lambda g: [int(q) for q in np.cumsum(g)])),
                        scale=s.just(rs[1]), r=s.one_of(s.integers(0, 12), logint(0, 500)), half=s.booleans(), mode=s.sampled_from(["any", "any", "inc", "dec", "shuffle"]), perm=seeds())))


def run(c):
    from riptide.clustering import cluster1d
    v = list(c["v"])
    mode = c["mode"]
    if mode in ("inc", "dec"):
        v.sort(reverse=mode == "dec")
    if mode == "shuffle":
        rng = np.random.Generator(np.random.PCG64(c["perm"]))
        v = [v[i] for i in rng.permutation(len(v))]
    r2 = 2 * c["r"] + (1 if c["half"] else 0)
    x = np.asarray(v, dtype=float) * c["scale"]
    r = r2 / 2 * c["scale"]
    keep = x.copy()
    srt = mode in ("inc", "dec")
    kw = {"already_sorted": True} if srt else {}
    cl = call(cluster1d, x, r, **kw)
    require(np.array_equal(x, keep), "input modified")
    got = [[int(i) for i in g] for g in cl]
    flat = [i for g in got for i in g]
    require(sorted(flat) == list(range(len(v))), f"not a partition of the indices: {got}")
    require(all(g for g in got), "empty cluster")
    exp = ref.friends([2 * q for q in v], r2)
    require({frozenset(g) for g in got} == exp, f"x={x.tolist()} r={r}: clusters {got}, expected {sorted(map(sorted, exp))}")
    if srt:
        require(flat == list(range(len(v))), "clusters of sorted input are not in input order")
    else:
        require(all(x[a] <= x[b] for a, b in zip(flat, flat[1:])), "clusters are not in increasing order of x")
    if not v:
        require(got == [], "empty input")
    n = len(exp)
    lb = [mode, "one" if n == 1 else "all-separate" if n == len(v) else "mixed"]
    if len(set(v)) < len(v):
        lb.append("ties")
    if any(2 * abs(a - b) == r2 for a, b in zip(sorted(v), sorted(v)[1:])):
        lb.append("gap=r")
    if len(v) < 2:
        lb.append("trivial")
    return lb


def gen_large():
    s = st()
    return case(n=sizes(150, 300000), kind=s.sampled_from(["dense", "sparse", "ties", "runs"]), r=s.integers(0, 6), half=s.booleans(), mode=s.sampled_from(["any", "inc", "dec"]), seed=seeds())


def run_large(c):
    from riptide.clustering import cluster1d
    n, r = c["n"], c["r"] + (0.5 if c["half"] else 0.0)
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    x = {"dense": lambda: rng.integers(0, max(1, n // 2), size=n), "sparse": lambda: rng.integers(0, 6 * n, size=n), "ties": lambda: rng.integers(0, 50, size=n) * 3,
         "runs": lambda: np.cumsum(np.where(rng.random(n) < 0.001, 20, 1))}[c["kind"]]().astype(float)
    if c["mode"] == "any":
        x = rng.permutation(x)
    else:
        x = np.sort(x)[::1 if c["mode"] == "inc" else -1].copy()
    cl = call(cluster1d, x, r, **({} if c["mode"] == "any" else {"already_sorted": True}))
    flat = np.concatenate([np.asarray(g) for g in cl])
    require(flat.size == n and np.array_equal(np.sort(flat), np.arange(n)), f"not a partition of the {n} indices")
    s = np.sort(x)
    exp = np.diff(np.concatenate(([0], np.flatnonzero(np.diff(s) > r) + 1, [n])))
    got = [len(g) for g in cl]
    if c["mode"] == "dec":
        exp = exp[::-1]
    require(len(got) == len(exp), f"{len(got)} clusters of {n} points, expected {len(exp)}")
    require(np.array_equal(got, exp), f"sizes of the clusters of {n} points: {got[:20]}, expected {exp[:20].tolist()}")
    require(np.array_equal(x[flat], s[::-1] if c["mode"] == "dec" else s), "clusters are not in order")
    return [c["mode"], "n>32767" if n > 32767 else "n<=32767", "one" if len(exp) == 1 else "several"]


PROP = Prop("C12", [
    Sub("partition", gen, run, 3000, 60000, "points on a dyadic grid (exact differences, gaps equal to r) in all orders against quadratic union-find; non-trivial: at least two points", shards=(2, 6)),
    Sub("large", gen_large, run_large, 150, 2000, "150 to 300000 points in any order, against the gaps of the sorted points", shards=(1, 3)),
])
