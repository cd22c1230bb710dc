import math
import numpy as np
from ..core import *
from .. import ref


def detect(f, s, T, smin, segwidth, nstd, minseg, polydeg, clrad):
    """(list of clusters of indices, threshold at the trials, fitted?) or raises Skip when a decision hinges on rounding."""
    if not len(f):
        return [], np.empty(0), False
    x = abs(f[-1] - f[0]) * T / segwidth
    if x > 0.5 and abs(x - round(x)) < 1e-9 * x:
        raise Skip("number of segments")
    m = min(max(1, math.ceil(x)), len(f))
    p = len(f) // m
    ff = np.sort(f[:m * p].reshape(m, p), axis=1)
    fc = (ff[:, (p - 1) // 2] + ff[:, p // 2]) / 2
    v = np.sort(s[:m * p].reshape(m, p), axis=1)
    q = np.empty((m, 3))
    for j, r in enumerate((0.25, 0.5, 0.75)):
        h = r * (p - 1)
        a = int(math.floor(h))
        b = min(a + 1, p - 1)
        q[:, j] = v[:, a] + (h - a) * (v[:, b] - v[:, a])
    sc = q[:, 1] + nstd * (q[:, 2] - q[:, 0]) / 1.349
    if m >= minseg:
        lx = np.log(fc)
        c, h = lx.mean(), max(np.ptp(lx) / 2, 1e-12)
        V = np.vander((lx - c) / h, polydeg + 1)
        W = np.vander(lx, polydeg + 1)
        nrm = np.sqrt((W ** 2).sum(axis=0))
        if np.any(nrm == 0) or np.linalg.cond(W / nrm) > 1e9:
            raise Skip("fit over a frequency range too narrow for its degree")
        co = np.linalg.lstsq(V, sc, rcond=None)[0]
        thr = np.polyval(co, (np.log(f) - c) / h)
        eps = 1e-5 * (np.abs(sc).max() + 1)
    else:
        thr = np.full(len(f), float(smin))
        eps = 0.0
    if eps and np.any((np.abs(s - thr) <= eps) & (s > smin)):
        raise Skip("S/N equal to the threshold to rounding")
    sel = np.flatnonzero((s > thr) & (s > smin))
    r = clrad / T
    clusters = []
    for i in sel:       # f is strictly decreasing
        if clusters:
            g = f[clusters[-1][-1]] - f[i]
            if abs(g - r) <= 1e-12 * f[i]:
                raise Skip("gap equal to the clustering radius to rounding")
            if g <= r:
                clusters[-1].append(int(i))
                continue
        clusters.append([int(i)])
    return clusters, thr, m >= minseg


def check(pg, opts, given):
    import riptide
    keep = [np.array(a, copy=True) for a in (pg.periods, pg.foldbins, pg.snrs, pg.widths)]
    f = 1.0 / np.asarray(pg.periods, dtype=float)
    T = pg.metadata["tobs"]
    kw = {k: opts[k] for k in given}
    o = {**dict(smin=6.0, segwidth=5.0, nstd=6.0, minseg=10, polydeg=2, clrad=0.1), **kw}
    exp = [detect(f, pg.snrs[:, j].astype(float), T, **o) for j in range(len(pg.widths))]
    peaks, polycos = call(riptide.find_peaks, pg, **kw)
    require(all(same(a, b) for a, b in zip(keep, (pg.periods, pg.foldbins, pg.snrs, pg.widths))), "find_peaks modified the periodogram")
    require(sorted(polycos) == list(range(len(pg.widths))), f"threshold coefficients for widths {sorted(polycos)}")
    lb = set()
    seen = 0
    for j, (clusters, thr, fitted) in enumerate(exp):
        if len(f):
            got = np.poly1d(polycos[j])(np.log(f))
            require(np.all(np.abs(got - thr) <= 1e-5 * (np.abs(thr).max() + 1)), f"width index {j}: threshold coefficients give up to {got.max()}, expected up to {thr.max()} ({'fitted' if fitted else 'constant'})")
            require(len(polycos[j]) == (o["polydeg"] + 1 if fitted else 1) or (fitted and np.allclose(np.ptp(thr), 0, atol=1e-6)), f"{len(polycos[j])} threshold coefficients")
        mine = [p for p in peaks if p.iw == j]
        s = pg.snrs[:, j].astype(float)
        by = {}
        owner = {i: k for k, c in enumerate(clusters) for i in c}
        for p in mine:
            k = owner.get(p.ip)
            require(k is not None, f"peak at trial {p.ip}, width index {j}, S/N {p.snr}: not above the threshold {thr[p.ip]} and smin {o['smin']}")
            require(k not in by, f"two peaks (trials {by.get(k)} and {p.ip}) for one cluster")
            by[k] = p.ip
            require(s[p.ip] == s[clusters[k]].max(), f"peak at trial {p.ip} has S/N {s[p.ip]}, its cluster reaches {s[clusters[k]].max()}")
            require(p.snr == s[p.ip] and p.width == pg.widths[j] and p.dm == pg.metadata["dm"], f"fields of {p}")
            require(abs(p.freq - f[p.ip]) <= 1e-12 * p.freq and abs(p.period - pg.periods[p.ip]) <= 1e-12 * p.period, f"period or frequency of {p}")
            require(abs(p.ducy - pg.widths[j] / pg.foldbins[p.ip]) <= 1e-12, f"duty cycle of {p}")
            require(all(type(getattr(p, a)) is t for a, t in (("period", float), ("freq", float), ("width", int), ("ducy", float), ("iw", int), ("ip", int), ("snr", float))), f"types of the fields of {p}")
        missing = [c for k, c in enumerate(clusters) if k not in by]
        require(not missing, f"width index {j}: no peak for the cluster of trials {missing[:1]} of S/N up to {max(s[missing[0]]) if missing else 0} (threshold {thr[missing[0][0]] if missing else 0})")
        seen += len(clusters)
        if fitted:
            lb.add("fitted")
            if np.any((s > o["smin"]) & (s <= thr)):
                lb.add("fit-rejects")
        else:
            lb.add("constant")
        if any(len(c) > 1 for c in clusters):
            lb.add("cluster>1")
    require(len(peaks) == seen, f"{len(peaks)} peaks, expected {seen}")
    require(all(a.snr >= b.snr for a, b in zip(peaks, peaks[1:])), "peaks not by decreasing S/N")
    lb.add("peaks" if seen else "trivial")
    return sorted(lb)


def options():
    s = st()
    return dict(smin=s.one_of(s.sampled_from([3.0, 6.0, 4, 8.5, 0.0]), finite(0, 12)), segwidth=often(8, s.one_of(s.just(5.0), finite(0.5, 20.0)), logfloat(1e-3, 0.5)), nstd=s.one_of(s.sampled_from([6.0, 0.0, 1.0]), finite(0, 8)),
                minseg=s.integers(6, 25), polydeg=s.integers(0, 4), clrad=s.one_of(s.just(0.1), logfloat(0.001, 3.0)),
                given=s.lists(s.sampled_from(["smin", "segwidth", "nstd", "minseg", "polydeg", "clrad"]), unique=True))


def gen():
    s = st()
    return case(n=often(25, s.one_of(logint(0, 2500), s.integers(100, 1500)), sizes(2500, 100000)), nw=s.integers(1, 4), seed=seeds(), per=often(12, logfloat(0.05, 20.0), logfloat(20.0, 5000.0)), levels=s.sampled_from([0, 0, 0, 0, 2, 3, 4, 8]), T=logfloat(10.0, 5000.0), p0=logfloat(0.001, 20.0),
                jitter=s.booleans(), integer=s.booleans(), trend=finite(-4, 4), inject=s.integers(0, 8), sig=finite(0.2, 2.0), dm=s.sampled_from([None, 0.0, 12.25]), **options())


def run(c):
    import riptide
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    n, T, per = c["n"], c["T"], c["per"]
    # trials `per` per 1/T, in decreasing frequency from 1/p0
    f0 = 1.0 / c["p0"]
    step = 1.0 / (per * T)
    d = step * (rng.uniform(0.5, 1.5, size=n) if c["jitter"] else np.ones(n))
    f = f0 - np.concatenate(([0.0], np.cumsum(d)))[:n]
    f = f[f > 0.02 * f0]
    n = len(f)
    widths = np.cumsum(rng.integers(1, 4, size=c["nw"]))
    s = rng.normal(size=(n, c["nw"])) * (0.02 * c["sig"] if c["levels"] and c["jitter"] else c["sig"]) + 3.0
    if n:
        s += (c["trend"] * np.log(f / f0))[:, None]
    for _ in range(c["inject"] if n else 0):
        i, j, a, w = rng.integers(n), rng.integers(c["nw"]), rng.uniform(3, 25), rng.integers(1, 8)
        s[i:i + w, j] += a * rng.uniform(0.5, 1, size=len(s[i:i + w]))
        if rng.random() < 0.5:
            s[i:i + w] += a / 2
    if c["integer"]:
        s = np.round(s)
    if c["levels"]:     # in turn, so that the quantiles of a segment lie between two of them
        s += ((np.arange(n) + rng.integers(8)) % c["levels"] * rng.uniform(0.5, 1.5))[:, None]
    meta = riptide.metadata.Metadata({"tobs": T, "dm": c["dm"]})
    pg = riptide.Periodogram(widths, 1.0 / f, rng.integers(20, 260, size=n).astype(np.uint32), s.astype(np.float32), metadata=meta)
    return check(pg, c, c["given"])


def gen_dense():
    s = st()
    def build(t):
        n, nseg, o, r = t
        o = {**o, **r, "n": n}
        o["minseg"] = 6 + o["minseg"] % 3
        o["polydeg"] = o["polydeg"] % 4
        o["given"] = sorted(set(o["given"]) | {"minseg", "polydeg", "segwidth"})
        o["per"] = n / (nseg * o["segwidth"])
        return o
    rest = case(nw=s.integers(1, 2), seed=seeds(), T=logfloat(10.0, 5000.0), jitter=s.booleans(), integer=s.booleans(), trend=finite(-4, 4), levels=s.sampled_from([0, 2, 3, 4, 8]), inject=s.integers(0, 20),
                f0=logfloat(2.0, 20.0), sig=finite(0.2, 2.0), dm=s.sampled_from([None, 0.0, 12.25]))
    return s.tuples(sizes(5000, 300000), s.integers(8, 25), case(**options()), rest).map(build)


def run_dense(c):
    # the whole range goes from f0 times the last frequency to the first
    nT = c["n"] / c["per"]          # range of frequencies in units of 1/T
    p0 = c["T"] * (1 - 1 / c["f0"]) / nT
    return run({**c, "p0": p0})


def gen_search():
    s = st()
    return case(seed=seeds(), N=s.integers(2000, 20000), f0=logfloat(1.0, 4.0), bmin=s.integers(16, 60), width=finite(1.1, 6.0), nsig=s.integers(0, 3), amp=finite(8, 30), red=s.booleans(), **options())


def run_search(c):
    import riptide
    from .c10 import signal
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    N, b = c["N"], c["bmin"]
    pmin = b * c["f0"]
    x = rng.normal(size=N)
    for _ in range(c["nsig"]):
        x += signal(N, pmin * rng.uniform(1.01, c["width"]), rng.uniform(3.0 / b, 0.25), rng.random(), c["amp"])
    if c["red"]:
        x += np.cumsum(rng.normal(size=N)) * 0.02
    ts = riptide.TimeSeries(f32(x), 1e-3, metadata={"dm": 3.0})
    _, pg = call(riptide.ffa_search, ts, period_min=pmin * 1e-3 * 1.0000001, period_max=pmin * 1e-3 * c["width"], bins_min=b, bins_max=b + b // 8, fpmin=3, ducy_max=0.3, deredden=c["red"], rmed_width=N * 1e-3 / 2, rmed_minpts=101)
    return check(pg, c, c["given"])


PROP = Prop("C11", [
    Sub("synthetic", gen, run, 3000, 300000, "periodograms of 0 to 2500 trials and 1 to 4 widths with noise, trends, injected peaks and ties, all detection parameters given or left to their documented defaults: peaks and thresholds against an independent reference; non-trivial: at least one cluster expected", shards=(3, 6)),
    Sub("dense", gen_dense, run_dense, 120, 6000, "the same with 5000 to 300 000 trials, in segments of hundreds to thousands of them; non-trivial: at least one cluster expected", shards=(2, 4)),
    Sub("search", gen_search, run_search, 300, 40000, "the same on periodograms of actual searches with and without signals", shards=(2, 4)),
], assumptions=["distinct trial periods", "minseg > polydeg + 1, and a frequency range wide enough for the fit to be well conditioned", "cases in which a decision hinges on rounding are skipped and counted"])
