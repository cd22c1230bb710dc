"""Results depend on the arguments only: histories of calls in one process, against each call on its own in a fresh one."""
import copy, decimal, gc, io, locale, os, pickle, random, signal, sys, threading, time, traceback, warnings, logging
import numpy as np
from ..core import *
from . import c18, c19

T0 = 1.0 / 64      # sampling time of the shared time series


# ---------------------------------------------------------------- cases

def gen():
    s = st()
    i8 = s.integers(0, 7)
    frac = s.floats(0, 1)

    def op(name, **f):
        return case(op=name, a=i8, **f)
    ops = [
        op("ffa2", p=s.integers(1, 24)), op("ffa1", p=s.integers(1, 24)), op("freq", p=s.integers(2, 24), prd=s.booleans()),
        op("down", u=frac), op("snr", p=s.integers(2, 40), w=s.lists(s.integers(1, 9), min_size=1, max_size=4), std=s.sampled_from([1.0, 2.0])),
        op("rmed", w=s.integers(0, 12)), op("fastrmed", w=s.integers(1, 60), m=s.sampled_from([3, 5, 11])),
        op("rollback", k=s.integers(0, 99)), op("fused", k=s.integers(0, 99), b=i8), op("prefix", k=s.integers(1, 300)),
        op("widths", n=s.integers(2, 200), ducy=s.sampled_from([0.05, 0.2, 0.5]), wtsp=s.sampled_from([1.2, 1.5, 2.0])),
        op("cluster", r=s.sampled_from([0.1, 1.0, 5.0])),
        op("search", bmin=s.integers(6, 20), db=s.integers(0, 3), grow=s.floats(1.1, 2.5), fpmin=s.integers(1, 9), wtsp=s.sampled_from([1.5, 2.0]), ducy=s.sampled_from([0.2, 0.4]), dered=s.booleans(), norm=s.booleans(), sub=s.floats(0, 0.5)),
        op("peaks", bmin=s.integers(6, 20), grow=s.floats(1.5, 3.0), smin=s.sampled_from([2.0, 3.0]), clrad=s.sampled_from([0.1, 1.0]), minseg=s.sampled_from([3, 10, 1000]), segwidth=s.sampled_from([2.0, 5.0]), polydeg=s.integers(1, 2), nstd=s.sampled_from([1.0, 2.0, 6.0])),
        op("fold", p=s.floats(2.1, 30.0), b=s.integers(2, 12), k=s.one_of(s.none(), s.integers(1, 5))),
        op("normalise"), op("deredden", w=s.integers(1, 40)), op("tsdown", u=frac), op("copy"), op("new", copy=s.booleans()),
        op("generate", n=s.integers(2, 300), p=s.floats(2.0, 50.0), ducy=s.sampled_from([0.02, 0.3]), phi=s.sampled_from([0.5, 0.1]), amp=s.sampled_from([10.0, 3.0]), std=s.sampled_from([0.0, 1.0]), seed=seeds()),
        op("json", indent=s.sampled_from([None, 2])), op("metadata", extra=s.integers(0, 3)),
        op("sigproc", extra=s.booleans(), bits=s.sampled_from([8, 32]), signed=s.sampled_from([None, True, False]), ra=s.sampled_from([123456.7, -3015.5]), n=s.integers(1, 40), where=s.integers(0, 3)),
        op("presto", dm=s.sampled_from([0.0, 10.5]), cbw=s.sampled_from([5.0, -1.0]), n=s.integers(1, 40), where=s.integers(0, 3), tsamp=s.sampled_from([1e-3, 0.5])),
        op("dms", n=s.integers(1, 20), lo=s.floats(0, 10), wmin=s.sampled_from([1e-3, 1e-2])),
        op("htest", f=s.floats(1.0, 20.0), r=s.sampled_from([1.5, 2.0, 3.00001, 0.25]), denom=s.sampled_from([5, 100]), snr=s.sampled_from([8.0, 20.0])),
        op("config", n=s.integers(1, 3), bad=s.sampled_from([None, None, "processes", "radius", "extra"])),
        op("candidate", p=s.floats(2.1, 30.0), b=s.integers(2, 12), k=s.one_of(s.none(), s.integers(1, 9)), npk=s.integers(1, 4)),
        op("bad", what=s.integers(0, 9)),
        op("numpy", form=s.sampled_from(["npy", "npy64", "binary"]), n=s.integers(30, 300), where=s.integers(0, 3), ops=s.lists(s.sampled_from(["normalise", "deredden", "downsample"]), max_size=2)),
        op("inplace", ops=s.lists(s.tuples(s.sampled_from(["normalise", "deredden", "downsample"]), s.integers(1, 6)).map(list), min_size=1, max_size=4)),
        op("derived", dered=s.booleans(), norm=s.booleans(), on=s.sampled_from(["given", "searched"]), ops=s.lists(s.tuples(s.sampled_from(["normalise", "deredden", "downsample", "metadata"]), s.integers(1, 6)).map(list), min_size=1, max_size=3)),
        op("worker", pool=s.integers(0, 1), n=s.sampled_from([150, 400, 900, 2000]), amp=s.sampled_from([0.0, 4.0]), where=s.integers(0, 3)),
        op("dmiter", n=s.integers(1, 3), where=s.integers(0, 3), fmt=s.sampled_from(["presto", "sigproc"]), wmin=s.sampled_from([1e-3, 0.1])),
        op("plot", kind=s.sampled_from(["pgram", "pgram", "cand"]), bmin=s.integers(6, 12), grow=s.floats(1.5, 2.5), iw=s.one_of(s.none(), s.integers(0, 1))),
    ]
    arr = s.one_of(s.integers(2, 40), logint(40, 1200)).flatmap(lambda n: arrays(n, kinds=("int", "noise", "walk", "wide", "spikes"), amax=50))
    one = s.integers(0, len(ops) - 1).flatmap(lambda i: ops[i])
    return s.one_of(
        case(arr=s.lists(arr, min_size=1, max_size=3), ops=s.lists(one, min_size=2, max_size=12), threads=often(5, s.just(0), s.integers(2, 4)), spoil=s.booleans()),
        # the same operation with different parameters and inputs, several times
        s.integers(0, len(ops) - 1).flatmap(lambda i: case(arr=s.lists(arr, min_size=1, max_size=3), ops=s.lists(ops[i], min_size=2, max_size=5), threads=often(3, s.just(0), s.integers(2, 4)), spoil=s.booleans())))


# ---------------------------------------------------------------- one operation

class World:
    """The shared inputs of a history: arrays and time series, and the time series made by earlier operations."""
    def __init__(self, c, d):
        import riptide
        self.d, self.c = d, c
        self.arr = [make_array(a).astype(np.float32) for a in c["arr"]]
        self.ts = [riptide.TimeSeries.from_numpy_array(x.copy(), T0) for x in self.arr]
        self.made, self.pools = {}, {}

    def array(self, o):
        return self.arr[o["a"] % len(self.arr)]

    def series(self, o, k):
        """a shared time series, or one made by an earlier operation"""
        j = inputs_of(self.c, k)
        return self.made[j[0]] if j else self.ts[o["a"] % (len(self.ts) + sum(1 for q in self.c["ops"][:k] if q["op"] in MAKERS))]

    def state(self):
        return [x.copy() for x in self.arr] + [(t.data.copy(), t.tsamp, dict(t.metadata)) for t in self.ts]


def inputs_of(c, k):
    """indices of the operations whose result operation k uses"""
    makers = [j for j in range(k) if c["ops"][j]["op"] in MAKERS]
    o = c["ops"][k]
    if o["op"] not in TS_OPS:
        return []
    n = len(c["arr"])
    j = o["a"] % (n + len(makers))
    return [] if j < n else [makers[j - n]]


MAKERS = ("normalise", "deredden", "tsdown", "copy")
NUMERIC = ("ffa2", "ffa1", "freq", "down", "snr", "rmed", "fastrmed", "rollback", "fused", "prefix", "widths", "cluster", "search", "peaks", "fold", "dms", "htest")
TS_OPS = MAKERS + ("search", "peaks", "fold", "candidate", "json", "plot")


def search_args(ts, o):
    """period range of a search that fits"""
    n, t = ts.nsamp, ts.tsamp
    pmin = t * o["bmin"] * (1 + o.get("sub", 0.0))
    return dict(period_min=pmin, period_max=pmin * o["grow"], bins_min=o["bmin"], bins_max=o["bmin"] + o.get("db", 2))


def do(w, c, k):
    """Runs operation k; every exception is part of the result."""
    o = c["ops"][k]
    try:
        r = OPS[o["op"]](w, o, k)
        if o["op"] in MAKERS:
            w.made[k] = r
        return r
    except (MemoryError, SystemExit, Violation):
        raise
    except Exception as e:
        if o["op"] in MAKERS:
            w.made[k] = w.series(o, k)   # so that later operations refer to the same ones
        return ("exception", type(e).__name__, str(e)[:200])


def op_search(w, o, k):
    import riptide
    ts = w.series(o, k)
    a, b = riptide.ffa_search(ts, **search_args(ts, o), fpmin=o["fpmin"], wtsp=o["wtsp"], ducy_max=o["ducy"], deredden=o["dered"], rmed_width=ts.tsamp * 9, rmed_minpts=3, already_normalised=o["norm"])
    return [a, b]


def op_peaks(w, o, k):
    import riptide
    ts = w.series(o, k)
    _, pg = riptide.ffa_search(ts, **search_args(ts, o), fpmin=1, deredden=False)
    return [list(riptide.find_peaks(pg, smin=o["smin"], clrad=o["clrad"], minseg=o["minseg"], segwidth=o["segwidth"], polydeg=o["polydeg"], nstd=o["nstd"])), riptide.find_peaks(pg)[1]]


def op_generate(w, o, k):
    import riptide
    np.random.seed(o["seed"] % 2 ** 32)
    return riptide.TimeSeries.generate(o["n"] * T0, T0, o["p"] * T0, phi0=o["phi"], ducy=o["ducy"], amplitude=o["amp"], stdnoise=o["std"])


class place:
    """One of two directories, in which every operation uses the same file names; given as an absolute path, or as "." after a change of directory."""
    def __init__(self, w, o):
        self.dir = os.path.join(w.d, f"sub{o['where'] % 2}")
        self.rel = o["where"] >= 2

    def __enter__(self):
        os.makedirs(self.dir, exist_ok=True)
        self.cwd = os.getcwd()
        if self.rel:
            os.chdir(self.dir)
        return "." if self.rel else self.dir

    def __exit__(self, *a):
        os.chdir(self.cwd)


def op_numpy(w, o, k):
    """a time series from an array file, then processed in place; the file is left as it is"""
    import riptide
    x = np.random.Generator(np.random.PCG64(k)).normal(size=o["n"]) + 3
    x = x.astype(np.float64 if o["form"] == "npy64" else np.float32)
    with place(w, o) as d:
        f = os.path.join(d, "x.dat" if o["form"] == "binary" else "x.npy")
        if o["form"] == "binary":
            x.tofile(f)
            ts = riptide.TimeSeries.from_binary(f, T0)
        else:
            np.save(f, x)
            ts = riptide.TimeSeries.from_npy_file(f, T0)
        before = open(f, "rb").read()
        first = ts.data.copy()
        for name in o["ops"]:
            getattr(ts, name)(*{"normalise": [], "deredden": [9 * ts.tsamp], "downsample": [1.5]}[name], inplace=True)
        return [first, ts, open(f, "rb").read() == before]


def op_inplace(w, o, k):
    """in-place operations on a new time series"""
    import riptide
    ts = riptide.TimeSeries(w.array(o), T0, copy=True)
    out = []
    for name, v in o["ops"]:
        getattr(ts, name)(*{"normalise": [], "deredden": [(2 * v + 1) * ts.tsamp], "downsample": [1 + v / 4]}[name], inplace=True)
        out.append(ts.copy())
    return out


def op_derived(w, o, k):
    """what was made from a time series stays what it was when that time series is modified in place"""
    import riptide
    from riptide.peak_detection import Peak
    from riptide.pipeline.peak_cluster import PeakCluster
    ts = riptide.TimeSeries(w.array(o), T0, metadata={"dm": 3.0}, copy=True)
    P = ts.tsamp * 8
    ts2, pg = riptide.ffa_search(ts, period_min=P, period_max=2 * P, bins_min=8, bins_max=10, fpmin=1, deredden=o["dered"], rmed_width=ts.tsamp * 9, rmed_minpts=3, already_normalised=o["norm"])
    src = ts if o["on"] == "given" else ts2
    pk = Peak(period=1.5 * P, freq=1 / (1.5 * P), width=1, ducy=0.1, iw=0, ip=0, snr=10.0, dm=3.0)
    cand = riptide.Candidate.from_pipeline_output(src, PeakCluster([pk], rank=0), 8, subints=None)
    made = {"the periodogram": pg, "the candidate": cand, "a copy": src.copy(), "the normalised series": src.normalise(), "the downsampled series": src.downsample(1.5), "the fold": src.fold(P * 1.25, 8), "the data given": w.array(o)}
    before = {a: plain(b) for a, b in made.items()}
    out = [plain(b) for b in made.values()]
    for name, v in o["ops"]:
        if name == "metadata":
            src.metadata[f"note{v}"] = v
        else:
            getattr(src, name)(*{"normalise": [], "deredden": [(2 * v + 1) * src.tsamp], "downsample": [1 + v / 7.0]}[name], inplace=True)
        for a, b in made.items():
            q = differ(plain(b), before[a])
            require(q is None, f"{a} made from a time series is changed by a later change of it ({name}): {q}")
    return out


def op_worker(w, o, k):
    """WorkerPool.process_fname(): the pool belongs to the history"""
    from riptide.pipeline import WorkerPool
    if o["pool"] not in w.pools:
        conf = [dict(ffa_search=dict(period_min=0.016, period_max=0.05, bins_min=12, bins_max=14, **([{}, {"fpmin": 4}][o["pool"]])), find_peaks={"smin": 5.0}),
                dict(ffa_search=dict(period_min=0.05, period_max=0.2, bins_min=20, bins_max=22), find_peaks={})][:2 - o["pool"]]
        dered = {"rmed_width": 0.051, "rmed_minpts": 51}
        w.pools[o["pool"]] = (WorkerPool(dered, conf, processes=1, fmt="presto"), conf, copy.deepcopy(conf), dered, dict(dered))
    p, conf, conf0, dered, dered0 = w.pools[o["pool"]]
    x = np.random.Generator(np.random.PCG64(k)).normal(size=o["n"])
    x[(np.arange(o["n"]) % 31) == 5] += o["amp"]
    with place(w, o) as d:
        f = c18.write_presto(d, "x", 1.0 + k, 1e-3, x=x)
        r = [list(p.process_fname(f))]
    if conf != conf0 or dered != dered0:
        raise Violation("the configuration given to WorkerPool is modified")
    return r


def op_dmiter(w, o, k):
    from riptide.pipeline import DMIterator
    with place(w, o) as d:
        wr = c18.write_presto if o["fmt"] == "presto" else c18.write_sigproc
        fl = [wr(d, f"y{i}", float(i * 10 + k), 1e-3 * (i + 1), nsamp=10 + k) for i in range(o["n"])]
        it = DMIterator(fl, None, None, dmsinb_max=None, fmt=o["fmt"], wmin=o["wmin"], fmin=1200.0, fmax=1500.0, nchans=64)
        return [list(it.selected_dms), list(it.iterate_filenames(chunksize=2)), it.tobs_median(), it.tsamp_max(), it.fmin, it.fmax, it.nchans, it.metadata_list]


def op_plot(w, o, k):
    import riptide
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    ts = w.series(o, k)
    if o["kind"] == "pgram":
        _, pg = riptide.ffa_search(ts, **search_args(ts, o), fpmin=1, deredden=False)
        fig = plt.figure(figsize=(4, 3), dpi=50)
        try:
            pg.plot(iwidth=o["iw"])
        except Exception:
            plt.close(fig)
            raise
    else:
        from riptide.peak_detection import Peak
        from astropy.coordinates import SkyCoord
        import pandas
        pk = Peak(period=1.0, freq=1.0, width=2, ducy=0.1, iw=0, ip=0, snr=10.0, dm=1.0 + k)
        m = riptide.Metadata({"source_name": f"S{k}", "skycoord": SkyCoord(10.0 + k, 20.0, unit="deg"), "mjd": 55000.0, "dm": 1.0, "tobs": 100.0})
        fig = riptide.Candidate(pk.summary_dict(), m, pandas.DataFrame([pk.summary_dict()]), np.outer(np.arange(4.0), np.arange(10.0) + k)).plot(figsize=(9, 3), dpi=50)
    out = []
    for ax in fig.axes:
        out.append([[l.get_xydata() for l in ax.lines], [im.get_array().filled(0) for im in ax.images], [t.get_text() for t in ax.texts], [b.get_height() for b in ax.patches], ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), list(ax.get_xlim()), list(ax.get_ylim()),
                    ax.xaxis.label.get_fontsize(), sum(g.get_visible() for g in ax.get_xgridlines())])
    plt.close(fig)
    return out


def op_sigproc(w, o, k):
    import riptide
    from riptide.reading import SigprocHeader
    from .c16 import pack
    items = [("source_name", "s", "X"), ("src_raj", "d", o["ra"]), ("src_dej", "d", -o["ra"] / 10), ("tstart", "d", 59000.5), ("tsamp", "d", 1e-3), ("nchans", "i", 1), ("nbits", "i", o["bits"])]
    if o["signed"] is not None:
        items.append(("signed", "b", int(o["signed"])))
    if o["extra"]:
        items.insert(2, ("num_trusses", "i", 7))
    x = (np.arange(o["n"]) * 37 % 256).astype(np.uint8) if o["bits"] == 8 else np.arange(o["n"]).astype(np.float32)
    extra = {"num_trusses": int} if o["extra"] and o["a"] % 2 else {}
    with place(w, o) as d:
        f = os.path.join(d, "x.tim")
        with open(f, "wb") as g:
            g.write(pack(items) + x.tobytes())
        return [dict(SigprocHeader(f, extra_keys=extra)), riptide.TimeSeries.from_sigproc(f, extra_keys=extra)]


def op_presto(w, o, k):
    import riptide
    from riptide.reading import PrestoInf
    with place(w, o) as d:
        f = c18.write_presto(d, "x", o["dm"], o["tsamp"], cbw=o["cbw"], x=np.arange(o["n"]).astype(np.float32))
        return [dict(PrestoInf(f)), riptide.TimeSeries.from_presto_inf(f)]


def op_dms(w, o, k):
    from riptide.pipeline.dmiter import select_dms
    return select_dms([i * 0.7 for i in range(o["n"])], o["lo"], 100.0, 1200.0, 1500.0, 64, o["wmin"])


def op_htest(w, o, k):
    from riptide.peak_detection import Peak
    from riptide.pipeline.harmonic_testing import htest, hdiag
    F = Peak(period=1 / o["f"], freq=o["f"], width=3, ducy=0.1, iw=1, ip=3, snr=20.0, dm=1.0)
    H = Peak(period=1 / (o["f"] * o["r"]), freq=o["f"] * o["r"], width=3, ducy=0.1, iw=1, ip=3, snr=o["snr"], dm=1.0)
    return [str(v) for v in htest(F, H, 100.0, 1200.0, 1500.0, denom_max=o["denom"])] + [str(htest(F, H, 100.0, 1200.0, 1500.0))]


def op_config(w, o, k):
    from riptide.pipeline.config_validation import validate_pipeline_config, validate_ranges
    conf = c19.conf_of([{"name": f"r{i}", "ffa_search": {"period_min": float(i + 1), "period_max": float(i + 2), "bins_min": 10, "bins_max": 12}, "find_peaks": {}, "candidates": {"bins": 8, "subints": None}} for i in range(o["n"])])
    if o["bad"] == "extra":
        conf["other"] = 1
    elif o["bad"] == "processes":
        conf["processes"] = 0
    elif o["bad"] == "radius":
        conf["clustering"]["radius"] = -1
    before = copy.deepcopy(conf)
    try:
        v = validate_pipeline_config(conf)
        validate_ranges(v["ranges"], 1e-6)
    finally:
        if conf != before:
            raise Violation("the configuration given to validate_pipeline_config is modified")
    return v


def op_candidate(w, o, k):
    import riptide
    from riptide.peak_detection import Peak
    from riptide.pipeline.peak_cluster import PeakCluster
    ts = w.series(o, k)
    P = o["p"] * o["b"] / 2 * ts.tsamp
    pk = [Peak(period=P, freq=1 / P, width=i + 1, ducy=0.1, iw=i, ip=i, snr=10.0 - i, dm=float(i % 2)) for i in range(o["npk"])]
    x = riptide.Candidate.from_pipeline_output(ts, PeakCluster(pk, rank=0), o["b"], subints=o["k"])
    return [x, x.profile, list(x.dm_curve)]


def op_json(w, o, k):
    from riptide.serialization import to_json, from_json
    t = to_json({"a": w.series(o, k), "b": [w.array(o), {"c": 1.5}]}, indent=o["indent"])
    return [t, from_json(t)]


def op_metadata(w, o, k):
    import riptide
    m = riptide.Metadata({"a": o["a"], "dm": 1.5, **{f"k{i}": i for i in range(o["extra"])}})
    m["own"] = k
    one = [lambda: riptide.Periodogram(np.array([1]), np.array([1.0]), np.array([5]), np.zeros((1, 1))), lambda: riptide.TimeSeries(w.array(o), T0), lambda: riptide.TimeSeries.from_numpy_array(w.array(o), T0)]
    out = []
    for f in one:       # objects that are made without metadata, then given some
        x = f()
        out.append(dict(x.metadata))
        x.metadata["own"] = k
        x.metadata["extra"] = o["extra"]
    return [m, riptide.Metadata(), riptide.Metadata({})] + out


def op_bad(w, o, k):
    """calls that are refused"""
    import riptide
    x, t = w.array(o), w.series(o, k)
    return [lambda: riptide.downsample(x, 0.5), lambda: riptide.running_median(x, 2), lambda: riptide.boxcar_snr(x, [0]), lambda: riptide.boxcar_snr(x, [10 ** 6]), lambda: riptide.ffa1(x, 10 ** 6),
            lambda: t.fold(1e9, 4), lambda: riptide.ffa_search(t, period_min=1.0, period_max=0.5), lambda: riptide.Metadata({"dm": "x"}), lambda: t.downsample(-1.0, inplace=True), lambda: riptide.TimeSeries.from_sigproc(os.path.join(w.d, "none"))][o["what"]]()


def OPSF():
    import riptide, pandas, astropy.coordinates
    import riptide.pipeline, riptide.pipeline.harmonic_testing, riptide.pipeline.dmiter, riptide.pipeline.config_validation, riptide.pipeline.peak_cluster, riptide.serialization, riptide.reading
    from riptide import libcpp
    from riptide.clustering import cluster1d
    from riptide.ffautils import generate_width_trials
    from riptide.running_medians import fast_running_median

    # matplotlib loads its fonts when it first needs them
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    fig = plt.figure(figsize=(2, 2))
    plt.plot([1, 2])
    plt.text(0, 0, "a$^{-3}$", family="monospace")
    plt.title("x", fontsize=18)
    plt.tight_layout()
    fig.canvas.draw()
    plt.close(fig)

    def rows(x, p):
        p = min(p, len(x))
        m = len(x) // p
        return x[:m * p].reshape(m, p)

    def f_of(x, u):
        return 1.0 + u * (len(x) - 1.0) * 0.9 + 0.01
    return {
        "ffa2": lambda w, o, k: riptide.ffa2(rows(w.array(o), o["p"])),
        "ffa1": lambda w, o, k: riptide.ffa1(w.array(o), o["p"]),
        "freq": lambda w, o, k: (riptide.ffaprd if o["prd"] else riptide.ffafreq)(len(w.array(o)), o["p"], dt=T0),
        "down": lambda w, o, k: riptide.downsample(w.array(o), f_of(w.array(o), o["u"] ** 3)),
        "snr": lambda w, o, k: riptide.boxcar_snr(rows(w.array(o), o["p"]), o["w"], stdnoise=o["std"]),
        "rmed": lambda w, o, k: riptide.running_median(w.array(o), 2 * o["w"] + 1),
        "fastrmed": lambda w, o, k: fast_running_median(w.array(o), o["w"], o["m"]),
        "rollback": lambda w, o, k: libcpp.rollback(w.array(o), o["k"]),
        "fused": lambda w, o, k: libcpp.fused_rollback_add(w.array(o)[:2], w.arr[o["b"] % len(w.arr)][:2], o["k"]),
        "prefix": lambda w, o, k: libcpp.circular_prefix_sum(w.array(o), o["k"]),
        "widths": lambda w, o, k: generate_width_trials(o["n"], ducy_max=o["ducy"], wtsp=o["wtsp"]),
        "cluster": lambda w, o, k: cluster1d(w.array(o), o["r"]),
        "search": op_search, "peaks": op_peaks,
        "fold": lambda w, o, k: w.series(o, k).fold(o["p"] * o["b"] / 2 * w.series(o, k).tsamp, o["b"], subints=o["k"]),
        "normalise": lambda w, o, k: w.series(o, k).normalise(),
        "deredden": lambda w, o, k: w.series(o, k).deredden(o["w"] * w.series(o, k).tsamp, minpts=5),
        "tsdown": lambda w, o, k: w.series(o, k).downsample(f_of(w.series(o, k).data, o["u"] ** 3)),
        "copy": lambda w, o, k: w.series(o, k).copy(),
        "new": lambda w, o, k: riptide.TimeSeries(w.array(o), T0 * 2, metadata={"dm": 2.0}, copy=o["copy"]),
        "generate": op_generate, "json": op_json, "metadata": op_metadata, "sigproc": op_sigproc, "presto": op_presto, "dms": op_dms, "htest": op_htest, "config": op_config, "candidate": op_candidate, "bad": op_bad,
        "numpy": op_numpy, "inplace": op_inplace, "derived": op_derived, "worker": op_worker, "dmiter": op_dmiter, "plot": op_plot,
    }


OPS = None


# ---------------------------------------------------------------- what is compared

def plain(r, d=""):
    """Result -> nested tuples of plain values and arrays (a copy)."""
    import pandas
    from astropy.coordinates import SkyCoord
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return ("list", tuple(plain(v, d) for v in r.tolist()))
        return ("array", r.copy())
    if isinstance(r, (np.generic,)):
        return r.item()
    if isinstance(r, SkyCoord):
        return ("sky", float(r.icrs.ra.deg), float(r.icrs.dec.deg))
    if isinstance(r, pandas.DataFrame):
        return ("frame", tuple(map(str, r.columns)), plain(r.values, d))
    if isinstance(r, tuple) and hasattr(r, "_fields"):
        return ("named",) + tuple(plain(v, d) for v in r)
    if isinstance(r, dict):
        return ("dict", tuple((str(a), plain(b, d)) for a, b in sorted(r.items(), key=lambda q: str(q[0]))))
    if isinstance(r, (list, tuple)):
        return ("list", tuple(plain(v, d) for v in r))
    if hasattr(r, "to_dict"):
        return (type(r).__name__, plain(r.to_dict(), d))
    if isinstance(r, str):
        return r.replace(d, "<dir>") if d else r
    if r is None or isinstance(r, (bool, int, float)):
        return r
    return repr(r)


def differ(a, b, where="result"):
    """None, or where the first difference is. Arrays may differ by rounding."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and len(b) == 2 and isinstance(a[1], np.ndarray) and isinstance(b[1], np.ndarray):
            x, y = a[1], b[1]
            if x.dtype != y.dtype or x.shape != y.shape:
                return f"{where}: {x.dtype}{x.shape} instead of {y.dtype}{y.shape}"
            if np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                return None
            if x.dtype.kind == "f" and np.array_equal(np.isnan(x), np.isnan(y)):
                fin = np.isfinite(y) & np.isfinite(x)
                if np.array_equal(x[~fin], y[~fin], equal_nan=True) and np.all(np.abs(x[fin] - y[fin]) <= 1e-6 * np.max(np.abs(y[fin]), initial=0)):
                    return None
            i = np.argwhere(~((x == y) | ((x != x) & (y != y))))[0]
            return f"{where}: element {tuple(map(int, i))} is {x[tuple(i)]!r} instead of {y[tuple(i)]!r}"
        if len(a) != len(b):
            return f"{where}: {str(a)[:200]} instead of {str(b)[:200]}"
        for i, (p, q) in enumerate(zip(a, b)):
            r = differ(p, q, f"{where}.{i}")
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * abs(b)):
        return None
    return None if type(a) is type(b) and a == b else f"{where}: {str(a)[:300]} instead of {str(b)[:300]}"


def open_files():
    """names of the open files, but for the fonts that matplotlib keeps open"""
    out = []
    for i in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + i)
        except OSError:
            continue
        if not p.endswith((".ttf", ".afm", ".otf")) and not p.startswith("/proc/"):
            out.append(p)
    return sorted(out)


def ambient():
    """global state that no call has any business changing"""
    s = np.random.get_state()
    plt = sys.modules.get("matplotlib.pyplot")
    fig = (plt.get_fignums(), hash(tuple(repr(v) for k, v in dict.items(plt.rcParams) if k != "backend"))) if plt else ()
    mask = os.umask(0o022)
    os.umask(mask)
    pd = sys.modules.get("pandas")
    shown = [pd.get_option("display." + k) for k in ("precision", "max_rows", "max_columns", "width", "float_format", "max_colwidth")] if pd else ()
    return (fig, repr(warnings.filters), dict(os.environ), s[1].tobytes(), s[2], os.getcwd(), sorted(np.geterr().items()), open_files(), sys.getrecursionlimit(),
            mask, shown, repr(sorted(np.get_printoptions().items())), locale.setlocale(locale.LC_ALL), gc.isenabled(), random.getstate(), tuple(sys.path), [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)], logging.root.manager.disable, sys.excepthook,
            decimal.getcontext().prec, threading.active_count())


# ---------------------------------------------------------------- running them

def in_child(fn, timeout=120.0):
    """fn() in a forked process; its result comes back pickled. A crash is a violation."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", str(e))
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    old = signal.signal(signal.SIGALRM, lambda *a: os.kill(pid, signal.SIGKILL))
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if not data:
        require(os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL, f"the process died ({status}) in a history of calls")
        raise Violation(f"no answer after {timeout:.0f} s")
    kind, v = pickle.loads(data)
    if kind == "violation":
        raise Violation(v)
    if kind == "error":
        raise RuntimeError(v)
    return v


def history(c, d):
    """all operations in turn -> results; inputs and earlier results stay what they were"""
    w = World(c, d)
    before = plain(w.state())
    raw, out = [], []
    for k, o in enumerate(c["ops"]):
        g = ambient()
        r = do(w, c, k)
        if o["op"] != "generate":
            h = ambient()
            if o["op"] == "numpy":   # a file mapped into memory stays open
                g, h = g[:7] + g[8:], h[:7] + h[8:]
            require(g == h, f"{o['op']} changes the state of the process: {[i for i in range(len(g)) if g[i] != h[i]]}")
        raw.append(r)
        out.append(plain(r, d))
        q = differ(plain(w.state()), before, "inputs")
        require(q is None, f"operation {k} ({o['op']}) changes its inputs: {q}")
    for k, o in enumerate(c["ops"]):
        q = differ(plain(raw[k], d), out[k])
        require(q is None, f"the result of operation {k} ({o['op']}) was changed by a later one: {q}")
    if c["spoil"]:      # what the caller does to results has no bearing on later calls
        spoil(raw, set())
        w = World(c, d)
        for k, o in enumerate(c["ops"]):
            q = differ(plain(do(w, c, k), d), out[k])
            require(q is None, f"operation {k} ({o['op']}), once the results of the same operations were modified by the caller: {q}")
    return out


def spoil(r, seen):
    """modifies the results of riptide in place"""
    if id(r) in seen:
        return
    seen.add(id(r))
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind in "fiu":
            r[...] = 3
    elif isinstance(r, dict):
        for v in list(r.values()):
            spoil(v, seen)
        r["spoiled"] = 1
    elif isinstance(r, (list, tuple)):
        for v in r:
            spoil(v, seen)
        if isinstance(r, list):
            r.append(None)
    elif type(r).__module__.startswith("riptide") and hasattr(r, "__dict__"):
        for v in list(vars(r).values()):
            spoil(v, seen)


def threaded(c, d, want):
    """every computation on arrays and series from several threads at once"""
    ks = [k for k, o in enumerate(c["ops"]) if o["op"] in NUMERIC and not inputs_of(c, k)]
    if not ks:
        return
    w = World(c, d)
    bad, go = [], threading.Barrier(c["threads"])

    def work(i):
        try:
            go.wait()
            for rep in range(3):
                for k in ks[i % len(ks):] + ks[:i % len(ks)]:
                    q = differ(plain(do(w, c, k), d), want[k])
                    if q is not None:
                        bad.append((k, q))
        except BaseException as e:
            bad.append((-1, repr(e)))
    sys.setswitchinterval(1e-5)
    th = [threading.Thread(target=work, args=(i,)) for i in range(c["threads"])]
    for t in th:
        t.start()
    for t in th:
        t.join()
    require(not bad, f"operation {bad[0][0]} from {c['threads']} threads: {bad[0][1]}" if bad else "")


def run(c):
    global OPS
    if OPS is None:
        OPS = OPSF()
    with scratch_dir() as d, quiet():
        d = os.path.realpath(d)

        def alone(k):
            w = World(c, d)
            for j in sorted(deps(c, k)):
                do(w, c, j)
            return plain(do(w, c, k), d)
        want = [in_child(lambda: alone(k)) for k in range(len(c["ops"]))]
        got = in_child(lambda: history(c, d))
        for k, o in enumerate(c["ops"]):
            q = differ(got[k], want[k])
            require(q is None, f"operation {k} ({o['op']}) after {[p['op'] for p in c['ops'][:k]]} does not give what it gives on its own: {q}")
        if c["threads"]:
            in_child(lambda: threaded(c, d, want))
    ok = sum(1 for v in want if not (isinstance(v, tuple) and v and v[0] == "list" and "exception" in v[1][:1]))
    names = {o["op"] for o in c["ops"]}
    return ["op:" + n for n in names] + (["threads"] if c["threads"] else []) + (["repeated"] if len(names) < len(c["ops"]) else []) + ([] if ok > 1 else ["trivial"])


def deps(c, k):
    out = set()
    for j in inputs_of(c, k):
        out |= deps(c, j) | {j}
    return out


# ---------------------------------------------------------------- one Pipeline object, several sets of files

def gen_reuse():
    s = st()
    sett = case(dms=s.lists(s.sampled_from([0.0, 1.5, 10.0, 47.125]), min_size=1, max_size=2, unique=True), amp=s.sampled_from([0.0, 1.5, 3.0, 5.0]), best=s.integers(0, 3), seed=seeds(), u=s.one_of(finite(0.1, 0.9), s.floats(0.85, 0.97)), n=s.one_of(s.integers(450, 520), s.integers(1500, 3000), s.integers(15000, 25000)))
    return case(sets=s.lists(sett, min_size=2, max_size=3), order=s.lists(s.integers(0, 2), min_size=2, max_size=4), tsamp=s.sampled_from([1e-3, 0.01]), bmin=s.integers(16, 24), grow=s.one_of(s.floats(1.2, 2.0), s.floats(30.0, 60.0)), fmt=s.sampled_from(["presto", "sigproc"]), maxn=s.one_of(s.none(), s.integers(1, 3)), harm=s.booleans())


def run_reuse(c):
    from riptide.pipeline import Pipeline
    from . import c22
    full = {"tsamp": c["tsamp"], "bmin": c["bmin"], "skip": 1.2, "edge": False, "bare": False, "fmt": c["fmt"], "procs": [1, 1], "dmin": None, "dmax": None, "cap": None, "radius": 0.2, "maxn": c["maxn"], "plot": False, "rmed": "scrunched", "band": 0.3, "red": False, "width": 0.1, "short": [0] * 7,
            "ranges": [dict(grow=c["grow"], db=2, fpmin=None, ducy=None, wtsp=None, smin=6.0, segwidth=None, nstd=None, clrad=None, polydeg=None, cand=8, sub=4)]}
    with scratch_dir() as d:
        d = os.path.realpath(d)
        conf, edges = c22.setting(full)
        conf["candidate_filters"]["remove_harmonics"] = c["harm"]
        files, refs, found = [], [], []
        for i, q in enumerate(c["sets"]):
            sub = os.path.join(d, f"set{i}")
            os.mkdir(sub)
            fl, band = c22.write({**full, **q}, sub, c["fmt"], edges)
            files.append(list(fl.values()))
            if c["fmt"] == "sigproc":
                conf["data"].update(fmin=band[0], fmax=band[1], nchans=band[2])
        for i in range(len(files)):
            ref = os.path.join(d, f"ref{i}")
            found.append(bool(c22.process(conf, files[i], ref).peaks))
            refs.append(ref)
        with quiet():
            given = copy.deepcopy(conf)
            pl = call(Pipeline, given)
            for j, i in enumerate(c["order"]):
                i %= len(files)
                out = os.path.join(d, f"out{j}")
                os.mkdir(out)
                call(pl.process, list(files[i]), out)
                try:
                    c22.compare(refs[i], out)
                except Violation as e:
                    raise Violation(f"run {j} of the same Pipeline (sets {c['order'][:j + 1]}), compared with a new one: {e}")
        require(given == conf, "the configuration given to Pipeline is modified")
    return ["found=%d" % sum(found)] + ([] if any(found) else ["trivial"])


# ---------------------------------------------------------------- long computations in several threads

def gen_threads():
    s = st()
    job = case(f=s.sampled_from(["rmed", "rmed", "fastrmed", "ffa2", "snr", "down", "search", "peaks", "fold", "normalise", "deredden"]), n=logint(3000, 60000), u=s.floats(0, 1), v=s.floats(0, 1), seed=seeds())
    return s.one_of(case(jobs=s.lists(job, min_size=2, max_size=4)),
                    # the same function with different sizes and parameters
                    s.tuples(job, s.lists(job, min_size=1, max_size=3)).map(lambda t: {"jobs": [t[0]] + [dict(j, f=t[0]["f"]) for j in t[1]]}))


def job_of(j):
    """a function without arguments, that returns arrays"""
    import riptide
    from riptide import TimeSeries, libffa, running_medians
    n, u, v = j["n"], j["u"], j["v"]
    x = np.random.Generator(np.random.PCG64(j["seed"])).normal(size=n).astype(np.float32)
    f = j["f"]
    if f == "rmed":
        x = x[:20000]
        w = 2 * int(1 + u * 100) + 1
        return lambda: [running_medians.running_median(x, w)]
    if f == "fastrmed":
        return lambda: [running_medians.fast_running_median(x, int(200 + u * 900), 2 * int(5 + v * 44) + 1)]
    p = int(8 + u * 200)
    if f == "ffa2":
        m = n // p
        return lambda: [libffa.ffa2(x[:m * p].reshape(m, p))]
    if f == "snr":
        m = n // p
        ws = np.unique([1, 2, 1 + int(v * (p - 2))])
        return lambda: [libffa.boxcar_snr(x[:m * p].reshape(m, p), ws)]
    if f == "down":
        return lambda: [libffa.downsample(x, 1.1 + 5 * u)]
    ts = TimeSeries.from_numpy_array(x, 1e-3)
    if f in ("search", "peaks"):
        ts = TimeSeries.from_numpy_array(x[:15000], 1e-3)
        b = int(12 + 20 * u)
        lo = b * 1.2e-3

        def search():
            a, pg = riptide.ffa_search(ts, period_min=lo, period_max=lo * (1.2 + v), bins_min=b, bins_max=b + 2, rmed_width=0.3)
            out = [a.data, pg.periods, pg.foldbins, pg.snrs]
            return out + [np.array([(q.period, q.snr, q.iw) for q in riptide.find_peaks(pg, smin=3.0)[0]])] if f == "peaks" else out
        return search
    if f == "fold":
        return lambda: [ts.fold(1e-3 * (20.3 + 30 * u), 16, subints=None if v < 0.5 else 4)]
    if f == "normalise":
        return lambda: [ts.normalise().data]
    return lambda: [ts.deredden(0.2 + u, minpts=2 * int(5 + v * 44) + 1).data]


def run_threads(c):
    jobs = c["jobs"]
    want = [in_child(lambda: job_of(j)()) for j in jobs]

    def together():
        work = [job_of(j) for j in jobs]
        bad, go = [], threading.Barrier(len(work))

        def one(i):
            try:
                go.wait()
                for rep in range(4):
                    got = work[i]()
                    for a, b in zip(got, want[i]):
                        if not same(a, b):
                            bad.append(f"{jobs[i]['f']} next to {[j['f'] for k, j in enumerate(jobs) if k != i]}: another result than on its own")
            except BaseException as e:
                bad.append(f"{jobs[i]['f']}: {e!r}")
        sys.setswitchinterval(1e-5)
        th = [threading.Thread(target=one, args=(i,)) for i in range(len(work))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        return bad
    bad = in_child(together)
    require(not bad, bad[0] if bad else "")
    return sorted({"job:" + j["f"] for j in jobs})


PROP = Prop("C29", [
    Sub("history", gen, run, 1300, 30000, "histories of 2 to 12 calls on shared arrays and time series, each call also made on its own in a fresh process; non-trivial if two calls or more return a result", shards=(6, 8)),
    Sub("threads", gen_threads, run_threads, 120, 2500, "two to four long computations at the same time in threads of one process, each compared bit for bit with what it gives alone in a process", shards=(2, 6)),
    Sub("pipeline-reuse", gen_reuse, run_reuse, 120, 1500, "one Pipeline object that processes several sets of files, compared with one Pipeline per set; non-trivial if a set has a signal", shards=(2, 8)),
], assumptions=["the fresh process is a fork of one that has imported riptide and called nothing of it"])
