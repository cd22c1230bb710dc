import io, contextlib, logging, os, re, sys
import numpy as np
from ..core import *
from .. import ref
from .c18 import write_presto
from .c16 import pack

DEFAULTS = {"Pmin": 1.0, "Pmax": 10.0, "bmin": 240, "bmax": 260, "smin": 7.0, "wtsp": 1.5, "rmed_width": 4.0, "rmed_minpts": 101, "clrad": 0.2}


def gen():
    s = st()
    sig = case(where=s.floats(0, 1), ducy=s.sampled_from([0.02, 0.05, 0.1, 0.2]), amp=s.floats(8, 60), phi=s.floats(0, 1))
    return case(n=s.integers(2000, 14000), dt=s.sampled_from([1e-3, 4e-3, 0.0127, 0.25]), bmin=s.integers(12, 120), bw=s.integers(0, 20), a=s.floats(1.0, 4.0), range=s.floats(1.05, 6.0), sigs=s.lists(sig, max_size=3), seed=seeds(),
                scale=s.sampled_from([1.0, 50.0, 0.01]), base=s.sampled_from([0.0, 100.0]), red=s.booleans(), smin=s.sampled_from([5.0, 6.0, 7.0, 9.5, 20.0, 1000.0]), wtsp=s.sampled_from([1.5, 1.2, 2.0, 3.0]), rw=s.floats(0.05, 0.6), minpts=s.sampled_from([3, 11, 51, 101]),
                clrad=s.sampled_from([0.2, 0.01, 0.5, 1.0, 3.0, 30.0]), use=s.lists(s.sampled_from(["smin", "wtsp", "rmed_width", "rmed_minpts", "clrad"]), unique=True), fmts=s.sampled_from(["presto", "sigproc", "both"]), dm=s.sampled_from([0.0, 42.42, 3.0]), main=s.booleans(),
                missing=often(2, s.just([]), s.lists(s.sampled_from(["source_name", "refdm", "tstart"]), min_size=1, unique=True)), style=s.sampled_from(["space", "equals"]), fpos=s.sampled_from(["first", "last"]), header=often(4, s.just(1.0), s.sampled_from([0.02, 0.5, 1.1, 100.0])))


def gen_defaults():
    s = st()
    return gen().map(lambda c: dict(c, dt=1 / 256, n=1024 + c["n"] // 2, use=[], plain=True))


def gen_new():
    s = st()
    return s.tuples(gen(), case(how=surroundings())).map(lambda t: {**t[0], **t[1]})


def params(c):
    """options given on the command line and the values that follow"""
    p = dict(DEFAULTS)
    given = {}
    if not c.get("plain"):
        T = c["n"] * c["dt"]
        pmin = c["a"] * c["bmin"] * c["dt"] * 1.001
        given = {"Pmin": pmin, "Pmax": min(pmin * c["range"], T / 2), "bmin": c["bmin"], "bmax": c["bmin"] + c["bw"]}
        given["Pmax"] = max(given["Pmax"], pmin * 1.02)
        vals = {"smin": c["smin"], "wtsp": c["wtsp"], "rmed_width": max(c["rw"] * T, 3 * c["dt"]), "rmed_minpts": c["minpts"], "clrad": c["clrad"]}
        given.update({k: vals[k] for k in c["use"]})
        k = given.get("rmed_minpts", DEFAULTS["rmed_minpts"])
        w = round(given.get("rmed_width", 4.0) / c["dt"])
        if not (2 * k <= w < c["n"] * 0.9 or (w % 2 == 1 and 3 <= w < 0.9 * c["n"])):   # a width that can be used with this minpts
            given["rmed_width"] = (max(3, round(vals["rmed_width"] / c["dt"])) // 2 * 2 + 1) * c["dt"]
    p.update(given)
    return p, given


def data(c, p):
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    n, dt = c["n"], c["dt"]
    t = np.arange(n) * dt
    x = rng.normal(size=n)
    for g in c["sigs"]:
        P = p["Pmin"] * (p["Pmax"] / p["Pmin"]) ** g["where"]
        d = (t / P - g["phi"] + 0.5) % 1.0 - 0.5
        y = np.exp(-0.5 * (d / (g["ducy"] / 2.355)) ** 2)
        y -= y.mean()
        x += y * g["amp"] / np.sqrt((y ** 2).sum() + 1e-9)
    if c["red"]:
        x += 5 * np.sin(2 * np.pi * t / (n * dt * 1.3)) + 3 * t / (n * dt)
    return (x * c["scale"] + c["base"]).astype(np.float32)


def rows(df):
    return sorted(tuple(number(df[k].values[i]) for k in ("snr", "period", "freq", "width", "ducy", "dm")) for i in range(len(df)))


def number(v):
    """-> float; -1e9 for an unknown DM"""
    return -1e9 if v is None or v != v else float(v)


def expected(fname, fmt, p):
    """[clusters of peaks] by the library"""
    import riptide
    ts = (riptide.TimeSeries.from_presto_inf if fmt == "presto" else riptide.TimeSeries.from_sigproc)(fname)
    try:
        _, pg = riptide.ffa_search(ts, period_min=p["Pmin"], period_max=p["Pmax"], bins_min=p["bmin"], bins_max=p["bmax"], rmed_width=p["rmed_width"], rmed_minpts=p["rmed_minpts"], wtsp=p["wtsp"], fpmin=1, ducy_max=0.3)
        peaks, _ = riptide.find_peaks(pg, smin=p["smin"], clrad=p["clrad"])
    except ValueError as e:
        raise Skip(f"the library refuses: {str(e)[:40]}")
    f = [k.freq for k in peaks]
    r = p["clrad"] / ts.length
    gaps = np.diff(sorted(f))
    if gaps.size and np.abs(gaps - r).min() < 1e-9 * (max(f) * 1e-6 + r):
        raise Skip("clustering hinges on rounding")
    return [[peaks[i] for i in g] for g in ref.friends(f, r)] if peaks else []


def c_unknown(w):
    return w.lower() in ("none", "nan", "na", "n/a", "<na>", "-", "--", "unknown")


def parse(text):
    """rows of the printed table as [(period, freq, width, ducy, dm, snr)]"""
    lines = [l for l in text.splitlines() if l.strip()]
    i = next((i for i, l in enumerate(lines) if l.split()[:1] == ["period"]), None)
    require(i is not None, f"no table printed: {text[:300]!r}")
    require(lines[i].split() == ["period", "freq", "width", "ducy", "dm", "snr"], f"table header {lines[i]!r}")
    out = []
    for l in lines[i + 1:]:
        w = l.split()
        require(len(w) == 6 and w[3].endswith("%"), f"table row {l!r}")
        out.append((float(w[0]), float(w[1]), int(w[2]), float(w[3][:-1]), -1e9 if c_unknown(w[4]) else float(w[4]), float(w[5])))
    return out


def one(fname, fmt, p, given, c):
    from riptide.apps import rseek
    clusters = expected(fname, fmt, p)
    argv = ["--format" if c["style"] == "equals" else "-f", fmt]
    for k, v in given.items():
        argv += [f"--{k}={v!r}"] if c["style"] == "equals" else [f"--{k}", repr(v)]
    argv = [fname] + argv if c["fpos"] == "first" else argv + [fname]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if c.get("how"):
            st, text, err = launch(c["how"], ["rseek"] + argv, os.path.dirname(fname))
            require(st == 0, f"rseek ends with status {st} ({c['how']}): {err[-1500:]}")
            buf.write(text)
            df = None
        elif c["main"]:
            old, sys.argv = sys.argv, ["rseek"] + argv
            try:
                call(rseek.main)
            finally:
                sys.argv = old
            df = None
        else:
            df = call(rseek.run_program, call(rseek.get_parser().parse_args, argv))
    text = buf.getvalue()
    if not clusters:
        require(df is None, f"nothing was found by the library, rseek returned {df}")
        require("no peaks found" in text.lower(), f"nothing was found, rseek printed {text!r}")
        return "nothing", None
    best = [max(k.snr for k in g) for g in clusters]
    tops = [[k for k in g if k.snr == b] for g, b in zip(clusters, best)]
    table = parse(text)
    require(len(table) == len(clusters), f"{len(table)} rows printed for {len(clusters)} clusters of peaks")
    require([r[5] for r in table] == sorted((r[5] for r in table), reverse=True), f"rows are not printed by decreasing S/N: {table}")
    half = (0.51e-9, 0.51e-9, 0, 0.0051, 0.0051, 0.051)

    def shows(r, k):
        v = (k.period, k.freq, k.width, 100 * k.ducy, number(k.dm), k.snr)
        return all(abs(a - b) <= h + 1e-12 * abs(b) for a, b, h in zip(r, v, half))
    for t in tops:
        require(any(shows(r, k) for r in table for k in t), f"the peak {t[0]} is not in the printed table {table}")
    if df is not None:
        require({"period", "freq", "width", "ducy", "dm", "snr"} <= set(df.columns), f"columns {list(df.columns)}")
        got = rows(df)
        require(len(got) == len(clusters), f"{len(got)} rows returned for {len(clusters)} clusters of peaks")
        require(list(df["snr"].values) == sorted(df["snr"].values, reverse=True), "rows are not returned by decreasing S/N")
        used = list(got)
        for t in tops:
            m = [r for r in used if any(r == (k.snr, k.period, k.freq, k.width, k.ducy, number(k.dm)) for k in t)]
            require(bool(m), f"the peak {t[0]} is not in the returned table {got}")
            used.remove(m[0])
    return ("merged" if any(len(g) > 1 for g in clusters) else "single"), (len(clusters), sorted(table))


def run(c):
    p, given = params(c)
    x = data(c, p)
    logging.disable(logging.CRITICAL)
    res = []
    missing = [k for k in c["missing"] if k != "refdm" or c["fmts"] == "sigproc"]       # the DM is shown in the table
    with scratch_dir() as d, quiet():
        for fmt in (("presto", "sigproc") if c["fmts"] == "both" else (c["fmts"],)):
            if fmt == "presto":
                f = write_presto(d, "x_DM1.00", c["dm"], c["dt"], x=x, nsamp=int(len(x) * c["header"]))
            else:
                f = os.path.join(d, "x.tim")
                with open(f, "wb") as o:
                    items = [("source_name", "s", "X"), ("src_raj", "d", 1e5), ("src_dej", "d", -2e5), ("tsamp", "d", c["dt"]), ("nbits", "i", 32), ("nchans", "i", 1), ("refdm", "d", c["dm"]), ("tstart", "d", 59000.0)]
                    o.write(pack([v for v in items if v[0] not in missing]) + x.tobytes())
            res.append(one(f, fmt, p, given, c))
    if len(res) == 2:
        require(res[0] == res[1], f"the two formats give different tables: {res}")
    n = (res[0][1] or (0,))[0]
    return [res[0][0], c["fmts"], "dm-unknown" if "refdm" in missing else "dm-known", "rows-%s" % ("0" if n == 0 else "1" if n == 1 else "many"), "main" if c["main"] else "run_program"] + [f"option-{k}" for k in given if k in c["use"]] + (["trivial"] if n == 0 else [])


PROP = Prop("C24", [
    Sub("options", gen, run, 480, 6000, "generated data files with 0 to 3 signals searched by rseek with generated options, against the library; non-trivial if any peak is found", shards=(6, 8)),
    Sub("defaults", gen_defaults, run, 60, 600, "the same with no option but the format; non-trivial if any peak is found", shards=(2, 8)),
    Sub("new-process", gen_new, run, 24, 300, "the command rseek in a process of its own, started in a generated way (hash seed, terminal width, interpreter options, ...), its standard output against the library; non-trivial if any peak is found", shards=(3, 8)),
], assumptions=["ffa_search and find_peaks are decided by C07 to C11; here, that rseek calls them as documented", "option values that the library refuses are skipped"])
