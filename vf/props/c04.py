import numpy as np
from ..core import *
from .. import ref


def layout(x, how):
    """the same values laid out differently in memory"""
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "axes":       # leading axes stored in the reverse order
        k = x.ndim - 1
        perm = list(range(k))[::-1] + [k]
        return np.ascontiguousarray(x.transpose(perm)).transpose(perm)
    if how == "strided":
        b = np.full(x.shape[:-1] + (2 * x.shape[-1],), 7, dtype=x.dtype)
        b[..., ::2] = x
        return b[..., ::2]
    if how == "reversed":
        return x[..., ::-1].copy()[..., ::-1]
    if how == "rows" and x.ndim > 1:    # every other row of a larger array, last first
        b = np.full((2 * x.shape[0],) + x.shape[1:], 7, dtype=x.dtype)
        b[::2] = x[::-1]
        return b[::2][::-1]
    return x


def widths(b):
    s = st()
    w = s.one_of(s.integers(1, b - 1), logint(1, b - 1), s.sampled_from([1, b - 1, max(1, b // 2)]))
    return s.one_of(s.lists(w, min_size=1, max_size=8), s.lists(w, min_size=1, max_size=8, unique=True).map(sorted),
                    s.just(list(range(1, b))) if b <= 60 else s.lists(w, min_size=1, max_size=20))


def gen():
    s = st()
    return s.one_of(logint(2, 1500), s.integers(2, 20)).flatmap(lambda b: s.lists(s.integers(1, 5), max_size=3).flatmap(
        lambda lead: case(b=b, lead=lead, widths=widths(b), data=arrays(b * int(np.prod(lead, dtype=int))),
                          std=s.one_of(s.just(1.0), logfloat(1e-4, 1e4)), roll=s.integers(0, b), off=s.sampled_from([0.0, 1.0, -3.0, 50.0]),
                          dtype=s.sampled_from(["float32", "float32", "float64"]), layout=often(3, s.just("c"), s.sampled_from(["fortran", "axes", "strided", "reversed", "rows"])), wtype=s.sampled_from(["list", "int64", "uint64", "int32", "tuple"]))))


def run(c):
    import riptide
    b, lead, W = c["b"], c["lead"], c["widths"]
    x = make_array(c["data"]).reshape(lead + [b])
    xin = layout(x.astype(c["dtype"]), c["layout"])
    win = {"list": W, "tuple": tuple(W)}.get(c["wtype"]) or np.asarray(W, dtype=c["wtype"])
    if c["layout"] == "c":
        y = call(riptide.boxcar_snr, xin, win, c["std"])
    else:       # another layout is either refused or handled correctly
        try:
            y = riptide.boxcar_snr(xin, win, c["std"])
        except ValueError:
            return ["refused-layout", "trivial"]
    require(np.array_equal(xin, x), "boxcar_snr modified its input")
    if c["std"] == 1.0:     # which is the default
        require(np.array_equal(call(riptide.boxcar_snr, xin, win), y), "boxcar_snr without noise level differs from boxcar_snr with a level of 1")
    require(y.dtype == np.float32 and y.shape == tuple(lead) + (len(W),), f"output is {y.dtype} {y.shape}, expected float32 {tuple(lead) + (len(W),)}")
    X = x.reshape(-1, b)
    r, tol = ref.boxcar_snr(X, W, c["std"])
    tol = tol * 2 + 3e-7 * np.abs(r)
    check_close(y.reshape(-1, len(W)), r, tol, f"boxcar_snr, {b} bins, widths {W[:10]}")
    # rotation and offset
    xr = np.roll(x, c["roll"], axis=-1) + c["off"]
    r2, tol2 = ref.boxcar_snr(f32(xr).astype(float).reshape(-1, b), W, c["std"])
    y2 = call(riptide.boxcar_snr, f32(xr), win, c["std"])
    check_close(y2.reshape(-1, len(W)), y.reshape(-1, len(W)), tol + 2 * tol2 + 3e-7 * np.abs(r) + 2e-7 * np.abs(xr).max() * b / c["std"], "rotation/offset invariance")
    lb = [f"ndim={len(lead) + 1}", c["layout"], "b<10" if b < 10 else "b<100" if b < 100 else "b>=100"]
    if max(W) > b // 2:
        lb.append("wide")
    if (r.max() - r.min()) == 0:
        lb.append("trivial")
    if (X < 0).all():
        lb.append("all-negative")
    if W != sorted(set(W)):
        lb.append("unsorted-widths")
    return lb


def gen_brute():
    s = st()
    return s.integers(2, 16).flatmap(lambda b: case(v=s.lists(s.integers(-30, 30), min_size=b, max_size=b), std=s.sampled_from([1.0, 0.5, 3.0])))


def run_brute(c):
    """Explicit templates at every placement."""
    import riptide
    v = np.asarray(c["v"], dtype=float)
    b = v.size
    W = list(range(1, b))
    y = call(riptide.boxcar_snr, f32(v), W, c["std"])
    for j, w in enumerate(W):
        t = np.zeros(b)
        t[:w] = 1.0
        t -= t.mean()
        t /= np.sqrt((t ** 2).sum())
        best = max(float(np.dot(np.roll(t, k), v)) for k in range(b)) / c["std"]
        require(abs(y[j] - best) <= 1e-4 * (1 + np.abs(v).sum() / c["std"]) * 0.05, f"width {w} of {b} bins: S/N {y[j]}, best template match {best}")
    if b > 3:   # widths are independent of each other
        for w in (1, b // 2, b - 1):
            z = call(riptide.boxcar_snr, f32(v), [w], c["std"])
            require(abs(float(z[0]) - float(y[w - 1])) <= 1e-5 * (1 + abs(float(z[0]))), f"S/N of width {w} depends on the other widths")
    return ["trivial"] if not v.any() else []


def gen_bad():
    s = st()
    return s.integers(2, 50).flatmap(lambda b: s.one_of(
        case(b=b, widths=s.lists(s.integers(1, b - 1), max_size=4), bad=s.one_of(s.just(0), s.integers(b, b + 100), s.just(2**40)), pos=s.integers(0, 4), std=1.0, rows=s.integers(0, 3)),
        case(b=b, widths=s.lists(s.integers(1, b - 1), min_size=1, max_size=4), bad=s.none(), pos=0, std=s.sampled_from([0.0, -1.0, -1e-6, 0]), rows=s.integers(0, 3))))


def run_bad(c):
    import riptide
    W = list(c["widths"])
    if c["bad"] is not None:
        W.insert(min(c["pos"], len(W)), c["bad"])
    x = np.ones(([c["rows"]] if c["rows"] else []) + [c["b"]], dtype=np.float32)
    must_raise(ValueError, riptide.boxcar_snr, x, W, c["std"])
    return ["width" if c["bad"] is not None else "stdnoise"]


def gen_large():
    s = st()
    return sizes(1500, 300000).flatmap(lambda b: case(b=b, lead=s.sampled_from([[], [], [2]]), widths=s.lists(s.one_of(logint(1, b - 1), s.integers(1, b - 1)), min_size=1, max_size=4), data=arrays(b * 2, kinds=("noise", "int", "walk"), amax=50),
                                                       std=s.one_of(s.just(1.0), logfloat(1e-2, 1e2)), roll=s.integers(0, b), off=s.just(0.0), dtype=s.just("float32"), layout=s.just("c"), wtype=s.just("list"))).map(
        lambda c: dict(c, data=dict(c["data"], n=c["b"] * int(np.prod(c["lead"], dtype=int)))))


PROP = Prop("C04", [
    Sub("values", gen, run, 1600, 30000, "profiles of any sign and scale, any leading shape, unsorted and repeated widths, against float64 prefix sums; rotation and offset invariance; non-trivial: S/N not all equal", shards=(2, 6)),
    Sub("large", gen_large, run, 60, 800, "the same with 1500 to 300000 bins", shards=(1, 3)),
    Sub("brute", gen_brute, run_brute, 600, 8000, "all widths of short profiles against explicit templates at every placement"),
    Sub("bad", gen_bad, run_bad, 200, 2000, "width 0, >= bins or stdnoise <= 0 must raise ValueError"),
])
