"""Argument fuzzing of the native module, built with AddressSanitizer and UBSan: any report ends the process, which the supervisor sees."""
import numpy as np
from ..core import *
from . import c07

DTYPES = ["float32", "float32", "float32", "float64", ">f4", ">f8", "int64", "int32", "uint8", "bool", "float16", "complex64", "object", "longdouble"]
LAYOUTS = ["c", "c", "c", "strided", "reversed", "T", "F", "offset", "tail", "broadcast", "readonly", "unaligned", "list", "scalar-step"]


def array_spec(shape, dtypes=DTYPES, layouts=LAYOUTS):
    s = st()
    layout = s.one_of(s.sampled_from(["c", "c", "offset", "readonly", "unaligned", "list"]), s.sampled_from(layouts))
    dtype = s.one_of(s.sampled_from(["float32", "float64"]), s.sampled_from(dtypes))
    return s.fixed_dictionaries({"shape": shape, "dtype": dtype, "layout": layout, "s": seeds(),
                                 "a": s.sampled_from([9, 9, 1, 100000]), "nan": s.sampled_from([0, 0, 0, 0, 1, 2, 3])})


def dims(maxsize, ndim):
    """Shapes of mostly `ndim` dimensions, sometimes empty, sometimes of another dimensionality."""
    s = st()
    n1 = s.one_of(s.integers(0, 3), s.integers(0, 40), logint(1, maxsize))
    if ndim == 1:
        right = n1.map(lambda n: [n])
    else:
        right = s.one_of(s.integers(0, 3), logint(1, maxsize // 4)).flatmap(lambda m: s.one_of(s.integers(0, 3), logint(1, max(1, maxsize // max(1, m)))).map(lambda p: [m, p]))
    wrong = s.lists(s.integers(0, 4), min_size=0, max_size=4)
    return often(9, right, wrong)


def build(a):
    """-> (object to pass, contiguous float32 equivalent)"""
    shape, dt = tuple(a["shape"]), np.dtype(a["dtype"])
    n = int(np.prod(shape, dtype=int))
    rng = np.random.Generator(np.random.PCG64(a["s"]))
    base = rng.integers(0 if dt.kind in "ub" else -a["a"], a["a"] + 1, size=n).astype(float)
    if dt.kind in "ub" or dt.name == "float16":
        base = np.clip(base, -60000, 60000) if dt.kind == "f" else base % 200
    if a["nan"] and dt.kind == "f" and n:
        base[rng.integers(0, n, size=1 + n // 7)] = [np.nan, np.inf, -np.inf][a["nan"] - 1]
    with np.errstate(all="ignore"):
        x = base.astype(dt).reshape(shape)
    lay = a["layout"]
    if lay == "strided" and x.ndim:
        big = np.zeros([2 * k for k in shape], dtype=dt)
        big[tuple(slice(None, None, 2) for _ in shape)] = x
        x = big[tuple(slice(None, None, 2) for _ in shape)]
    elif lay == "scalar-step" and x.ndim:
        big = np.zeros(shape[:-1] + (3 * shape[-1],), dtype=dt)
        big[..., 1::3] = x
        x = big[..., 1::3]
    elif lay == "reversed" and x.ndim:
        x = x[::-1].copy()[::-1]
    elif lay == "T":
        x = x.T
    elif lay == "F":
        x = np.asfortranarray(x)
    elif lay == "offset" and x.ndim:
        big = np.zeros((shape[0] + 3,) + shape[1:], dtype=dt)
        big[3:] = x
        x = big[3:]
    elif lay == "tail" and x.ndim:
        big = np.zeros(shape[:-1] + (shape[-1] + 2,), dtype=dt)
        big[..., :shape[-1]] = x
        x = big[..., :shape[-1]]
    elif lay == "broadcast" and n:
        x = np.broadcast_to(x.reshape(-1)[0], shape)
    elif lay == "readonly":
        x.flags.writeable = False
    elif lay == "unaligned" and dt.kind != "O":
        buf = np.zeros(n * dt.itemsize + 1, dtype=np.uint8)
        buf[1:] = np.frombuffer(x.tobytes(), dtype=np.uint8)
        x = buf[1:].view(dt).reshape(shape)
    elif lay == "list":
        return x.tolist(), as_f32(x)
    return x, as_f32(x)


def as_f32(x):
    with quiet():
        try:
            return np.ascontiguousarray(np.asarray(x).astype(np.float32))
        except (TypeError, ValueError):
            return None


EXC = (Exception,)     # any Python exception is a refusal; only a process death or a wrong result is a violation


def attempt(fn, *a, **k):
    try:
        with quiet():
            return fn(*a, **k), None
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"


def same_or_refused(name, fn, got, flats, rest, shape=None):
    """The result on any memory layout equals the result on contiguous float32 copies; of the documented shape."""
    out, err = got
    if err is not None:
        return ["refused", "trivial"]
    require(isinstance(out, np.ndarray) and out.dtype == np.float32, f"{name} returned {type(out)} {getattr(out, 'dtype', '')}")
    if shape is not None:
        require(out.shape == tuple(shape), f"{name}: shape {out.shape}, expected {tuple(shape)}")
    require(out.flags.c_contiguous and out.flags.writeable, f"{name}: output is not a contiguous writeable array")
    if all(f is not None for f in flats):
        r, e2 = attempt(fn, *flats, *rest)
        require(e2 is None, f"{name} accepted this layout and refused its contiguous copy: {e2}")
        require(same(out, r), f"{name}: the result depends on the memory layout")
    return ["ok"] + (["trivial"] if out.size == 0 else [])


SIZES = [0, 1, 2, 3, 7, -1, -5, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 1.0, 2.5, "3", None]


def sizes(around, maximum):
    s = st()
    return s.one_of(s.integers(0, maximum), s.integers(0, maximum), s.sampled_from(SIZES), s.integers(-3, 3).map(lambda d: ["n", d]))


def resolve(v, n):
    return n + v[1] if isinstance(v, list) else v


# ---------------------------------------------------------------- 1D kernels

def gen_kernels():
    s = st()
    return case(fn=s.sampled_from(["rollback", "fused_rollback_add", "circular_prefix_sum", "running_median", "downsample"]),
                x=array_spec(dims(3000, 1)), y=s.one_of(s.none(), s.none(), array_spec(dims(60, 1))), k=sizes(0, 4000),
                f=s.one_of(finite(1.0, 50.0), logfloat(1.0, 4000.0), s.sampled_from([0.0, 1.0, -1.0, 0.5, float("nan"), float("inf"), 1e300, 1 + 2.3e-16, 2.0, 3.0, 1e-320]),
                           s.tuples(s.just("n/"), s.integers(1, 50)).map(list), s.just(["n", 0])), lay2=s.one_of(s.just("c"), s.sampled_from(LAYOUTS)), half=s.booleans(),
                good=s.sampled_from([True, True, False]), u=finite(0, 1))


def run_kernels(c):
    from riptide import libcpp
    x, fx = build(c["x"])
    fn = c["fn"]
    n = int(np.prod(c["x"]["shape"], dtype=int))
    onedim = fx is not None and fx.ndim == 1
    if fn == "downsample":
        f = c["f"]
        if isinstance(f, list):
            f = n / f[1] if f[0] == "n/" else float(n)
        if isinstance(f, float) and c["half"] and n:
            f = float(np.nextafter(f, [0.0, np.inf][n % 2]))
        if c["good"] and n > 2:
            f = [float(n) ** max(1e-9, c["u"]), n / max(1.0, np.floor(c["u"] * n)), max(1.0 + 1e-12, c["u"] * n), float(2 + int(c["u"] * (n - 2)))][c["x"]["s"] % 4]
            f = float(min(f, n))
            f = f if f > 1 else 1.5
        got = attempt(libcpp.downsample, x, f)
        ok = onedim and n and 1 < f <= n
        lb = same_or_refused(fn, libcpp.downsample, got, [fx], [f], [int(np.floor(n / f))] if ok else None)
        if onedim and not ok:
            require(got[1] is not None, f"downsample of {n} samples by {f!r} was accepted")
        elif ok and c["x"]["layout"] == "c" and c["x"]["dtype"] in ("float32", "float64"):
            require(got[1] is None, f"downsample of {n} samples by {f!r} was refused: {got[1]}")
        return [fn + "-" + lb[0]] + lb
    k = resolve(c["k"], n)
    if c["good"] and n > 2:    # parameter in its domain
        k = int(c["u"] * 3 * n) if fn != "running_median" else 2 * int(c["u"] * ((n - 2) // 2)) + 1
    if isinstance(k, int) and fn == "circular_prefix_sum" and 10 ** 6 < k < 2 ** 40:
        k = 10 ** 6      # a request for gigabytes is not what is under test
    if fn == "running_median" and isinstance(k, int) and c["half"] and k % 2 == 0:
        k += 1
    func = getattr(libcpp, fn)
    if fn == "fused_rollback_add":
        if c["y"] is None:
            y, fy = build({**c["x"], "s": c["x"]["s"] ^ 1, "layout": c["lay2"]})
        else:
            y, fy = build(c["y"])
        got = attempt(func, x, y, k)
        lb = same_or_refused(fn, func, got, [fx, fy], [k], [n])
        return [fn + "-" + lb[0]] + lb
    got = attempt(func, x, k)
    lb = same_or_refused(fn, func, got, [fx], [k], [k] if fn == "circular_prefix_sum" and isinstance(k, int) else [n])
    if fn == "running_median" and onedim and isinstance(k, int):
        if not (k % 2 == 1 and 0 < k < n):
            require(got[1] is not None, f"running_median of {n} elements accepted width {k}")
        elif c["x"]["layout"] == "c" and c["x"]["dtype"] in ("float32", "float64"):
            require(got[1] is None, f"running_median of {n} elements refused width {k}: {got[1]}")
    return [fn + "-" + lb[0]] + lb


# ---------------------------------------------------------------- 2D kernels

def widths_spec():
    s = st()
    w = s.one_of(s.integers(0, 12), s.integers(1, 400), s.integers(-3, 1).map(lambda d: ["n", d]), s.integers(-3, 1).map(lambda d: ["n", d]),
                 s.sampled_from([-1, 2 ** 31, 2 ** 62, 2 ** 63 - 1]))
    good = s.lists(s.integers(1, 12), min_size=1, max_size=6)
    return s.fixed_dictionaries({"v": s.one_of(good, s.lists(w, min_size=0, max_size=6)), "dtype": s.sampled_from(["uint64", "uint64", "int64", "int32", "float64", "list", "uint8"]),
                                 "layout": s.sampled_from(["c", "c", "c", "reversed", "strided", "2d"])})


def in_domain(w, n, u):
    return {**w, "v": [1 + (resolve(k, n) - 1) % (n - 1) for k in w["v"]] or [1 + int(u * (n - 2))], "dtype": w["dtype"] if w["dtype"] not in ("uint8", "int32") else "uint64",
            "layout": w["layout"] if w["layout"] != "2d" else "c"}


def build_widths(w, n):
    v = [resolve(k, n) for k in w["v"]]
    if w["dtype"] == "list":
        return v
    dt = np.dtype(w["dtype"])
    a = np.asarray(v, dtype=np.int64).astype(dt) if v else np.zeros(0, dt)
    if w["layout"] == "reversed":
        return a[::-1].copy()[::-1]
    if w["layout"] == "strided":
        return np.repeat(a, 2)[::2]
    if w["layout"] == "2d":
        return a.reshape(1, -1)
    return a


def gen_blocks():
    s = st()
    return case(fn=s.sampled_from(["ffa2", "snr1", "snr2", "snr2", "boxcar_snr", "ffa1", "benchmark_ffa2"]), x=array_spec(dims(6000, 2)), x1=array_spec(dims(20000, 1)), w=widths_spec(),
                std=s.sampled_from([1.0, 2.5, 0.0, -1.0, float("nan"), float("inf"), 1e-30]), p=s.one_of(s.integers(-1, 50), sizes(0, 3000)), loops=s.integers(0, 2), good=s.sampled_from([True, True, False]), u=finite(0, 1))


def run_blocks(c):
    import riptide
    from riptide import libcpp
    fn = c["fn"]
    if fn == "benchmark_ffa2":
        sh = (list(c["x"]["shape"]) + [0, 0])[:2]
        out, err = attempt(libcpp.benchmark_ffa2, sh[0], sh[1], c["loops"])
        require(err is not None or c["loops"] == 0 or out >= 0, f"benchmark_ffa2 returned {out}")
        return [fn, "refused" if err else "ok"] + (["trivial"] if err else [])
    if fn in ("snr1", "ffa1"):
        x, fx = build(c["x1"])
        shape = tuple(c["x1"]["shape"])
    else:
        x, fx = build(c["x"])
        shape = tuple(c["x"]["shape"])
        if c["x"]["layout"] == "T":
            shape = shape[::-1]
    n = int(np.prod(shape, dtype=int))
    if fn == "ffa2":
        got = attempt(libcpp.ffa2, x)
        lb = same_or_refused(fn, libcpp.ffa2, got, [fx], [], shape)
        return [fn + "-" + lb[0]] + lb
    if fn == "ffa1":
        if not isinstance(x, np.ndarray):
            x = np.asarray(x)
        p = resolve(c["p"], n)
        if c["good"] and n:
            p = 1 + int((n - 1) * c["u"] ** 3)
        got = attempt(riptide.ffa1, x, p)
        lb = same_or_refused(fn, riptide.ffa1, got, [fx], [p], [n // p, p] if isinstance(p, int) and p > 0 else None)
        return [fn + "-" + lb[0]] + lb
    bins = shape[-1] if shape else 0
    if c["good"] and bins > 1:    # parameters in their domain
        c = {**c, "std": c["std"] if c["std"] > 0 else 1.0, "w": in_domain(c["w"], bins, c["u"])}
    w = build_widths(c["w"], bins)
    v = [resolve(k, bins) for k in c["w"]["v"]]
    if fn == "boxcar_snr":
        if not isinstance(x, np.ndarray):
            x = np.asarray(x)
        got = attempt(riptide.boxcar_snr, x, w, c["std"])
        lb = same_or_refused(fn, riptide.boxcar_snr, got, [fx], [w, c["std"]], shape[:-1] + (len(v),) if c["w"]["layout"] != "2d" else None)
    else:
        func = getattr(libcpp, fn)
        got = attempt(func, x, w, c["std"])
        lb = same_or_refused(fn, func, got, [fx], [w, c["std"]], ([len(v)] if fn == "snr1" else [shape[0], len(v)]) if len(shape) else None)
    exact = c["w"]["dtype"] in ("uint64", "int64", "list")
    bad = any(k <= 0 or k >= bins for k in v) or c["std"] <= 0      # built with -ffast-math: NaN is not required to be refused
    if bad and exact and n:
        require(got[1] is not None, f"{fn} accepted widths {v} with {bins} bins, stdnoise {c['std']}")
    elif not bad and v and n and exact and c["w"]["layout"] == "c" and fx is not None and c["x"]["dtype"] == "float32" and c["x"]["layout"] == "c" \
            and c["x1"]["dtype"] == "float32" and c["x1"]["layout"] == "c" and len(shape) == (1 if fn == "snr1" else 2):
        require(got[1] is None, f"{fn} refused widths {v} with {bins} bins, stdnoise {c['std']}: {got[1]}")
    return [fn + "-" + lb[0]] + lb


# ---------------------------------------------------------------- periodogram

def gen_pgram():
    s = st()
    num = often(4, s.just("keep"), s.one_of(s.sampled_from([0.0, -1.0, float("nan"), 1e-300, 1.0, 1e3]), s.tuples(s.just("*"), s.sampled_from([0.5, 0.999, 1 - 1e-15, 1 + 1e-15, 1.001, 2.0, 10.0, 1e6, 1e30])).map(list)))
    binz = often(3, s.just("keep"), s.one_of(s.integers(0, 5), s.sampled_from([-1, 2 ** 31, 2 ** 32, 2 ** 62, 2 ** 64 - 1, 1.5, None])))
    return case(p=c07.search_params(20000), tsamp=num, pmin=num, pmax=num, bmin=binz, bmax=binz, w=widths_spec(), good=s.sampled_from([True, True, False]), u=finite(0, 1),
                layout=s.one_of(s.sampled_from(["c", "offset", "unaligned", "list"]), s.sampled_from(LAYOUTS)), dtype=s.one_of(s.just("float32"), s.sampled_from(DTYPES)), seed=seeds())


def perturb(v, how):
    if how == "keep":
        return v
    return v * how[1] if isinstance(how, list) else how


def run_pgram(c):
    from riptide import libcpp
    p = c["p"]
    x, fx = build({"shape": [p["N"]], "dtype": c["dtype"], "layout": c["layout"], "s": c["seed"], "a": 9, "nan": 0})
    if c["good"]:
        tsamp, pmin, pmax, bmin, bmax = p["tsamp"], p["pmin"], min(p["pmax"], p["N"] * p["tsamp"]), p["bmin"], p["bmax"]
        c = {**c, "w": in_domain(c["w"], bmin, c["u"])}
    else:
        tsamp, pmin, pmax = perturb(p["tsamp"], c["tsamp"]), perturb(p["pmin"], c["pmin"]), perturb(p["pmax"], c["pmax"])
        bmin, bmax = (p["bmin"] if c["bmin"] == "keep" else c["bmin"]), (p["bmax"] if c["bmax"] == "keep" else c["bmax"])
    if isinstance(bmin, int) and isinstance(bmax, int) and 1 < bmin and pmax > pmin > 0 and tsamp > 0:
        # keep the volume of work bounded
        if min(pmax / (tsamp * bmin), 1e9) * 1.0 > 1e9 or (p["N"] > 3000 and min(bmax, p["N"]) - bmin > 200):
            raise Skip("too much work")
    w = build_widths(c["w"], bmin if isinstance(bmin, int) and bmin < 10 ** 6 else 4)
    got, err = attempt(libcpp.periodogram, x, tsamp, w, pmin, pmax, bmin, bmax)
    if err is not None:
        if c["good"] and c["layout"] == "c" and c["dtype"] in ("float32", "float64") and c["w"]["layout"] == "c" and c["w"]["dtype"] in ("uint64", "list") \
                and pmin < pmax and c["w"]["v"] and all(0 < resolve(k, bmin) < bmin for k in c["w"]["v"]):
            raise Violation(f"periodogram refused valid arguments: {err}")
        return ["refused", "trivial"]
    P, B, S = got
    require(P.dtype == np.float64 and B.dtype == np.uint32 and S.dtype == np.float32, "types")
    require(P.ndim == 1 and B.shape == P.shape and S.shape == (P.size, np.size(w)), f"shapes {P.shape} {B.shape} {S.shape}")
    if fx is not None:
        r, e2 = attempt(libcpp.periodogram, fx, tsamp, w, pmin, pmax, bmin, bmax)
        require(e2 is None and all(same(a, b) for a, b in zip(got, r)), f"periodogram depends on the memory layout ({e2})")
    return ["ok", "many" if P.size > 100 else "few"] + ([] if P.size else ["trivial"])


# ---------------------------------------------------------------- whole search

def gen_search():
    s = st()
    return case(p=c07.search_params(8000), ducy=s.sampled_from([0.01, 0.2, 0.3, 0.5, 0.9, 0.99]), wtsp=s.sampled_from([1.05, 1.5, 3.0]), fpmin=s.integers(1, 8), seed=seeds())


def run_search(c):
    p = c["p"]
    x = make_array({"k": "noise", "n": p["N"], "s": c["seed"], "a": 1.0})
    if not p["pmin"] < min(p["pmax"], p["N"] * p["tsamp"] / c["fpmin"]):
        return ["trivial"]
    pg = c07.search(x, p, fpmin=c["fpmin"], ducy_max=c["ducy"], wtsp=c["wtsp"])
    require(pg.snrs.shape == (pg.periods.size, len(pg.widths)), "shapes")
    from riptide import find_peaks
    attempt(find_peaks, pg, minseg=2)
    return ["ok"] if pg.periods.size else ["trivial"]


PROP = Prop("C23", [
    Sub("kernels", gen_kernels, run_kernels, 2500, 40000, "the call returned a non-empty array (not a refusal)", shards=(2, 6)),
    Sub("blocks", gen_blocks, run_blocks, 2500, 40000, "the call returned a non-empty array (not a refusal)", shards=(2, 6)),
    Sub("pgram", gen_pgram, run_pgram, 1600, 25000, "the periodogram was computed and is not empty", shards=(2, 8)),
    Sub("search", gen_search, run_search, 400, 8000, "the periodogram is not empty", shards=(2, 6)),
], assumptions=["numpy allocates inputs and outputs with malloc under ASan, so that an access beyond either end of a buffer is seen; accesses within an array of numpy's small-block cache rounded up are not",
                "requests for more memory than exists, and periodograms that would take hours, are not generated"], variant="asan")
