import copy, math, os
import numpy as np
from ..core import *
from .. import ref

OPS = ("copy", "normalise", "deredden", "downsample", "fold", "touch", "generate", "new")


def gen():
    s = st()
    new = case(op="new", n=logint(2, 600), src=s.sampled_from(["float32", "float64", "int16", "list", "binary", "npy", "npy32", "generate"]), seed=seeds(), copy=s.booleans(),
               tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5, 0.1, 3]), off=s.sampled_from([0.0, 10.0, -1e3, 1e5]), scale=s.sampled_from([1.0, 100.0, 1e-3]),
               meta=s.sampled_from([None, {}, {"source_name": "A", "dm": 1.5}, {"extra": [1, {"a": 2}], "mjd": 55000.25}]))
    op = s.one_of(
        case(op="copy", i=s.integers(0, 9)),
        case(op="normalise", i=s.integers(0, 9), inplace=s.booleans()),
        case(op="deredden", i=s.integers(0, 9), inplace=s.booleans(), w=finite(0.01, 0.8), mp=s.integers(1, 10).map(lambda k: 2 * k + 1)),
        case(op="downsample", i=s.integers(0, 9), inplace=s.booleans(), f=s.one_of(finite(1.001, 4.0), s.sampled_from([2.0, 3.0, 1.5]))),
        case(op="badsample", i=s.integers(0, 9), inplace=s.booleans(), f=s.sampled_from([1.0, 0.5, -1.0, 1e9, float("inf")])),
        case(op="fold", i=s.integers(0, 9), p=finite(0.05, 0.9), b=s.integers(1, 10)),
        case(op="touch", i=s.integers(0, 9), what=s.sampled_from(["data", "meta", "nested"])),
        new)
    return s.tuples(new, s.one_of(s.lists(op, min_size=1, max_size=12), s.lists(op, min_size=4, max_size=12))).map(lambda t: {"ops": [t[0]] + t[1]})


class World:
    def __init__(self, d):
        self.d = d
        self.objs = []          # (ts, source array or None)
        self.snaps = []
        self.srcs = []          # (array, snapshot, may change)
        self.files = {}         # path -> its bytes, nothing ever writes to them

    def snap(self, ts):
        return (ts.data.copy(), ts.tsamp, copy.deepcopy(dict(ts.metadata)))

    def add(self, ts):
        self.objs.append(ts)
        self.snaps.append(self.snap(ts))

    def check(self, changed, what):
        """Invariants of all objects; none but `changed` has changed."""
        for i, (ts, sn) in enumerate(zip(self.objs, self.snaps)):
            d = ts.data
            require(isinstance(d, np.ndarray) and d.dtype == np.float32 and d.ndim == 1, f"after {what}: data of object {i} is {type(d).__name__} {getattr(d, 'dtype', '')} {getattr(d, 'shape', '')}")
            require(ts.nsamp == d.size, f"after {what}: nsamp {ts.nsamp}, data size {d.size}")
            T = d.size * ts.tsamp
            require(type(ts.tsamp) is float or isinstance(ts.tsamp, float), f"type of tsamp {type(ts.tsamp)}")
            for name, v in (("length", ts.length), ("tobs", ts.tobs), ("metadata['tobs']", ts.metadata["tobs"])):
                require(abs(v - T) <= 1e-12 * T, f"after {what}: {name} of object {i} is {v!r}, {d.size} samples of {ts.tsamp!r} s")
            if i != changed:
                require(same(d, sn[0]) and ts.tsamp == sn[1] and dict(ts.metadata) == sn[2], f"{what} changed object {i}")
            else:
                self.snaps[i] = self.snap(ts)
        for a, sn in self.srcs:
            require(same(a, sn), f"{what} changed the array given with copy=True")
        for p, b in self.files.items():
            with open(p, "rb") as f:
                require(f.read() == b, f"{what} changed the file {os.path.basename(p)} that a time series was read from")


def refold(w, ts, P, b, what):
    """what is folded is what the time series holds now"""
    import riptide
    r = call(ts.fold, P, b)
    e = call(riptide.TimeSeries(ts.data, ts.tsamp, copy=True).fold, P, b)
    require(r.shape == e.shape, f"{what}: shape {r.shape}, a new time series with the same data gives {e.shape}")
    check_close(r, e, 1e-5 * np.abs(e).max(), what)


def close(got, exp, tol, what):
    check_close(got, exp, tol, what)


def do(w, o):
    import riptide
    op = o["op"]
    if op == "new":
        rng = np.random.Generator(np.random.PCG64(o["seed"]))
        n = o["n"]
        x = (rng.normal(size=n) + o["off"]) * o["scale"]
        dt, meta = o["tsamp"], copy.deepcopy(o["meta"])
        src = o["src"]
        if src == "generate":
            n = max(n, 20)
            ts = call(riptide.TimeSeries.generate, n * dt, dt, max(2.5, n / 7) * dt, amplitude=5.0)
            exp = None
        elif src in ("binary", "npy", "npy32"):
            p = os.path.join(w.d, f"{len(w.objs)}.{src[:3]}")
            if src == "binary":
                x.astype(np.float32).tofile(p)
                ts = call(riptide.TimeSeries.from_binary, p, dt)
            else:
                np.save(p, f32(x) if src == "npy32" else x)
                ts = call(riptide.TimeSeries.from_npy_file, p, dt)
            exp = f32(x)
            with open(p, "rb") as f:
                w.files[p] = f.read()
        else:
            a = x.tolist() if src == "list" else np.round(np.clip(x, -3e4, 3e4)).astype(src) if src == "int16" else x.astype(src)
            exp = np.asarray(a, dtype=np.float32)
            ts = call(riptide.TimeSeries, a, dt, metadata=meta, copy=o["copy"])
            if o["copy"] and src != "list":
                w.srcs.append((a, a.copy()))
            for k, v in (meta or {}).items():
                require(ts.metadata[k] == v, f"metadata {k}")
        if exp is not None:
            require(same(ts.data, exp), f"data of a TimeSeries made from {src}")
        require(ts.tsamp == float(dt), "tsamp")
        w.add(ts)
        w.check(None, f"creation from {src}")
        return src
    i = o["i"] % len(w.objs)
    ts = w.objs[i]
    n, dt = ts.nsamp, ts.tsamp
    x = ts.data.astype(float)
    inplace = o.get("inplace", False)
    dtn, factor = dt, 1.0
    if op == "copy":
        c = call(ts.copy)
        require(same(c.data, ts.data) and c.tsamp == dt and dict(c.metadata) == dict(ts.metadata) and type(c.metadata) is type(ts.metadata), "copy differs")
        require(not np.shares_memory(c.data, ts.data), "copy shares its data")
        w.add(c)
        w.check(None, "copy")
        return op
    if op == "touch":
        if o["what"] == "data" and ts.data.flags.writeable:
            ts.data[n // 2] += 1
        elif o["what"] == "meta":
            ts.metadata["note"] = len(w.objs)
        elif isinstance(ts.metadata.get("extra"), list):
            own = [j for j, t in enumerate(w.objs) if t.metadata.get("extra") is ts.metadata["extra"]]
            if own == [i]:      # objects derived by an operation may share nested values; copies must not
                ts.metadata["extra"].append(3)
        w.check(i, f"a change of the {o['what']} of object {i}")
        return op
    if op == "fold":
        b = o["b"]
        P = o["p"] * ts.length
        if not P / b > dt * 1.000001:
            return None
        refold(w, ts, P, b, f"fold of object {i}")
        w.check(None, "fold")
        return op
    if op == "badsample":
        must_raise(ValueError, ts.downsample, o["f"], inplace=inplace)
        w.check(None, f"a refused downsample by {o['f']}")
        return op
    if op == "normalise":
        sd = x.std()
        if not sd > 1e-6 * np.abs(x).max():
            return None
        exp = (x - x.mean()) / sd
        tol = 3e-7 * (np.abs(exp).max() + np.abs(x).max() / sd)
        args, kw = (), {}
    elif op == "deredden":
        W, mp = max(1, int(o["w"] * n)), o["mp"]
        if W < 2 * mp:
            W |= 1
            if W >= n:
                return None
        elif mp >= n // (W // mp):
            return None
        r, exact = ref.fast_running_median(ts.data, W, mp)
        exp = x - r
        tol = 1e-6 * np.abs(x).max() * (2 + math.log2(max(1, W // mp)))
        args, kw = (W * dt,), {"minpts": mp}
        if int(round(W * dt / dt)) != W:
            return None
    elif op == "downsample":
        factor = o["f"]
        if not factor <= n / 2:
            return None
        exp, tol = ref.downsample(x, factor)
        dtn = dt * factor
        args, kw = (factor,), {}
    fn = getattr(ts, op)
    what = f"{op}{args}{kw} of object {i} ({n} samples of {dt!r} s)"
    out = call(fn, *args, **kw)
    require(type(out) is type(ts), "type of the result")
    w.check(None, what)
    close(out.data, exp, tol, what)
    require(abs(out.tsamp - dtn) <= 1e-12 * dtn, f"{what}: tsamp {out.tsamp!r}, expected {dtn!r}")
    require({k: v for k, v in out.metadata.items() if k != "tobs"} == {k: v for k, v in ts.metadata.items() if k != "tobs"}, f"{what}: metadata")
    require(not np.shares_memory(out.data, ts.data), f"{what}: the result shares its data with the original")
    if op == "normalise":
        require(abs(out.data.mean(dtype=float)) < 1e-4 and abs(out.data.std(dtype=float) - 1) < 1e-4 or sd < 1e-4 * np.abs(x).max(), f"{what}: mean {out.data.mean(dtype=float)}, standard deviation {out.data.std(dtype=float)}")
    if not inplace:
        w.add(out)
        w.check(None, what)
        return op
    P, b = 0.43 * ts.length, max(1, min(8, n // 12))
    foldable = P / b > 1.001 * max(dt, dtn) and P < min(ts.length, out.length)
    if foldable:
        refold(w, ts, P, b, f"fold of object {i}")
    require(call(fn, *args, inplace=True, **kw) is None, f"in-place {what} returned something")
    if foldable:
        refold(w, ts, P, b, f"fold after in-place {what}")
    require(same(ts.data, out.data) and ts.tsamp == out.tsamp and dict(ts.metadata) == dict(out.metadata), f"in-place {what} is not the out-of-place result")
    w.check(i, "in-place " + what)
    return op + "-inplace"


def run(c):
    lb = set()
    with scratch_dir() as d:
        w = World(d)
        done = 0
        for o in c["ops"]:
            r = do(w, o)
            if r:
                lb.add(r)
                done += o["op"] != "new"
    if done < 2:
        lb.add("trivial")
    lb.add(f"ops={min(done, 8)}")
    return sorted(lb)


def gen_norm():
    s = st()
    return case(n=sizes(3, 200000), off=s.one_of(s.just(0.0), logfloat(1e-6, 1e4), logfloat(1e-6, 1e4).map(lambda v: -v)), scale=logfloat(1e-15, 1e15), seed=seeds(), kind=s.sampled_from(["normal", "uniform", "exp"]))


def run_norm(c):
    import riptide
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    x = {"normal": rng.normal, "uniform": rng.random, "exp": rng.exponential}[c["kind"]](size=c["n"])
    x = f32((x - x.mean() + c["off"]) * c["scale"])
    ts = riptide.TimeSeries(x, 0.5)
    y = call(ts.normalise).data.astype(float)
    # rounding of the input to float32 is part of the data; the result is rounded once
    require(abs(y.mean()) < 1e-5 and abs(y.std() - 1) < 1e-5, f"normalise: mean {y.mean()!r} and standard deviation {y.std()!r} ({c})")
    return ["big" if c["n"] > 1e4 else "small", "offset" if c["off"] else "centred"]


PROP = Prop("C14", [
    Sub("history", gen, run, 2500, 60000, "histories of up to 13 operations on a growing pool of time series made from arrays of several types, lists, files, the generator; after each one, invariants of all objects, value of the result against an array model, in-place against out-of-place, all other objects and all copied sources unchanged; non-trivial: at least two operations beyond creation", shards=(3, 6)),
    Sub("normalise", gen_norm, run_norm, 300, 4000, "normalise of data of 30 orders of magnitude of scale, offsets up to 10000 standard deviations, up to 200000 samples", shards=(1, 2)),
], assumptions=["data given without copy=True may be modified by in-place operations, as documented"])
