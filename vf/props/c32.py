"""Units: the results scale with the unit of time and do not depend on that of the data."""
import copy, math, os
import numpy as np
from ..core import *
from . import c10, c11, c18, c21, c22
from .c07 import search_params


def scales():
    s = st()
    return s.sampled_from([2.0 ** j for j in (-20, -10, -7, -3, -1, 1, 2, 5, 10, 20)])


def gen():
    s = st()

    def of(p):
        return case(p=s.just(p), data=arrays(p["N"], kinds=("noise", "int", "walk", "uniform", "spikes"), amax=20), time=often(5, scales(), s.just(1.0)), amp=often(5, scales(), s.just(1.0)), wi=finite(0.01, 0.9), minpts=s.integers(1, 12).map(lambda k: 2 * k + 1), dered=s.booleans(),
                    ducy=s.sampled_from([0.1, 0.2, 0.4]), wtsp=s.sampled_from([1.2, 1.5, 2.0]), fpmin=s.integers(1, 12), signal=s.booleans(), dm=s.sampled_from([None, 0.0, 33.3]), extra=s.booleans(),
                    peaks=s.fixed_dictionaries({k: v for k, v in c11.options().items() if k != "given"}))
    return search_params(4000, 60).flatmap(of)


def run(c):
    import riptide
    p = c["p"]
    N, dt, k, g = p["N"], p["tsamp"], c["time"], c["amp"]
    x = f32(make_array(c["data"]))
    if c["signal"]:
        P = 0.5 * (p["pmin"] + p["pmax"]) / dt
        x = (x + f32(np.std(x) * 2 * (((np.arange(N) / P) % 1.0) < 0.15))).astype(np.float32)
    wi = max(1, int(c["wi"] * N))
    fac = max(1, int(wi / c["minpts"]))
    dered = c["dered"] and ((wi | 1) < N if fac == 1 else c["minpts"] < N // fac)

    def go(tscale, ascale, meta):
        ts = riptide.TimeSeries(x * np.float32(ascale), dt * tscale, metadata=meta)
        a, pg = call(riptide.ffa_search, ts, period_min=p["pmin"] * tscale, period_max=p["pmax"] * tscale, bins_min=p["bmin"], bins_max=p["bmax"], fpmin=c["fpmin"], ducy_max=c["ducy"], wtsp=c["wtsp"],
                     deredden=dered, rmed_width=(wi | 1 if fac == 1 else wi) * dt * tscale, rmed_minpts=c["minpts"])
        return ts, a, pg
    y = x.astype(float)
    if y.std() <= 1e-4 * np.abs(y).max():
        raise Skip("constant data")
    other = {"dm": c["dm"]} if not c["extra"] else {"dm": c["dm"], "source_name": "X", "mjd": 50000.0, "fname": "y", "other": [1, 2]}
    ts0, a0, p0 = go(1.0, 1.0, {"dm": c["dm"]})
    if not np.isfinite(a0.data).all():
        raise Skip("constant data after de-reddening")
    if (np.abs(x[x != 0]).min(initial=1.0) * min(g, 1.0) < 1e-28):
        raise Skip("underflow")
    ts1, a1, p1 = go(k, g, other)
    what = f"time x {k}, data x {g}"
    sd = float(np.max(np.abs(a0.data), initial=0))
    if dered:   # the residuals may be dominated by rounding
        r = riptide.TimeSeries(x, dt).deredden((wi | 1 if fac == 1 else wi) * dt, minpts=c["minpts"]).data.astype(float)
        if r.std() <= 1e-3 * np.abs(y).max():
            raise Skip("residuals of de-reddening are rounding errors")
    check_close(a1.data, a0.data.astype(float), 1e-4 * sd, f"searched data, {what}")
    require(a1.tsamp == a0.tsamp * k, "sampling time of the searched data")
    require(len(p1.periods) == len(p0.periods), f"{len(p1.periods)} trials with {what}, {len(p0.periods)} before")
    require(np.array_equal(p1.foldbins, p0.foldbins) and list(p1.widths) == list(p0.widths), f"numbers of bins or widths, {what}")
    check_close(p1.periods / k, p0.periods, 1e-13 * np.asarray(p0.periods), f"trial periods, {what}")
    tol = 1e-4 * (1 + np.abs(p0.snrs).max(initial=0))
    check_close(p1.snrs, p0.snrs.astype(float), tol, f"S/N, {what}")
    lab = ["time" if k != 1 else "same-time", "data" if g != 1 else "same-data", "dered" if dered else "raw"]
    # peaks: of the same S/N values
    if len(p0.periods) > 1:
        p2 = riptide.Periodogram(p0.widths, p0.periods * k, p0.foldbins, p0.snrs, metadata=riptide.Metadata({"tobs": p0.tobs * k, "dm": c["dm"]}))
        o = c["peaks"]
        f0, f2 = 1.0 / p0.periods, 1.0 / p2.periods
        for f, T in ((f0, p0.tobs), (f2, p2.tobs)):
            for j in range(len(p0.widths)):
                c11.detect(f, p0.snrs[:, j].astype(float), T, **o)
        q0, q2 = call(riptide.find_peaks, p0, **o)[0], call(riptide.find_peaks, p2, **o)[0]
        key = lambda q, s: sorted((z.iw, z.ip, z.width, z.snr, round(z.ducy, 12), z.dm) for z in q)
        require(key(q0, 1) == key(q2, k), f"{len(q2)} peaks with time x {k}, {len(q0)} before")
        m = {(z.iw, z.ip): z for z in q0}
        for z in q2:
            b = m[z.iw, z.ip]
            require(abs(z.period - b.period * k) <= 1e-12 * z.period and abs(z.freq * k - b.freq) <= 1e-12 * b.freq, f"period and frequency of {z}, {b} before, time x {k}")
        lab.append("peaks" if q0 else "no-peaks")
    else:
        lab.append("trivial")
    if k == 1 and g == 1 and not c["extra"]:
        lab.append("trivial")
    return lab


# ---------------------------------------------------------------- time series operations

def gen_ts():
    s = st()
    return case(arr=s.integers(20, 1500).flatmap(lambda n: arrays(n, kinds=("noise", "int", "walk", "uniform"), amax=20)), tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5, 1 / 3]), time=often(5, scales(), s.just(1.0)), amp=often(5, scales(), s.just(1.0)),
                op=s.sampled_from(["fold", "deredden", "downsample", "normalise", "snr", "generate"]), u=finite(0.01, 0.99), bins=s.integers(2, 20), sub=s.one_of(s.none(), s.integers(1, 6)), minpts=s.integers(1, 20).map(lambda k: 2 * k + 1), neg=s.booleans())


def run_ts(c):
    import riptide
    x = f32(make_array(c["arr"]))
    n, dt, k, g = len(x), c["tsamp"], c["time"], c["amp"]
    if np.abs(x[x != 0]).min(initial=1.0) * min(g, 1.0) < 1e-28 or np.ptp(x) == 0:
        raise Skip("constant data or underflow")
    a, b = riptide.TimeSeries(x, dt), riptide.TimeSeries(x * np.float32(g), dt * k)
    out = 1.0
    op = c["op"]
    if op == "fold":
        P = (c["bins"] * 1.001 + c["u"] * (0.98 * n - c["bins"] * 1.001)) * dt
        if not c["bins"] * dt < P < n * dt:
            raise Skip("too short")
        sub = c["sub"] if c["sub"] is None or c["sub"] * P < n * dt * (1 - 1e-9) else None
        if abs(n * dt / P - round(n * dt / P)) < 1e-9:
            raise Skip("whole periods")
        r, q = call(a.fold, P, c["bins"], subints=sub), call(b.fold, P * k, c["bins"], subints=sub)
        out = g
    elif op == "deredden":
        w = 2 * int(c["u"] * n * 0.45) + 1
        if w / c["minpts"] >= 2:
            if c["minpts"] >= n // int(w / c["minpts"]):
                raise Skip("too few points")
        r, q = [call(t.deredden, w * t.tsamp, minpts=c["minpts"]).data for t in (a, b)]
        out = g
    elif op == "downsample":
        f = 1 + c["u"] * (n - 1.5)
        r, q = [call(t.downsample, f) for t in (a, b)]
        require(q.tsamp == r.tsamp * k, f"sampling time {q.tsamp} after downsampling, {r.tsamp} in the other unit (x {k})")
        r, q, out = r.data, q.data, g
    elif op == "normalise":
        if np.std(x.astype(float)) < 1e-3 * np.abs(x).max():
            raise Skip("nearly constant")
        r, q = [call(t.normalise).data for t in (a, b)]
    elif op == "snr":
        w = sorted({1, 1 + int(c["u"] * (n - 2))})
        r, q = call(riptide.boxcar_snr, x, w, stdnoise=1.5), call(riptide.boxcar_snr, x * np.float32(g), w, stdnoise=1.5 * g)
    else:
        P = (2.5 + c["u"] * n) * dt
        r, q = [call(riptide.TimeSeries.generate, n * t, t, p, amplitude=10.0 * h, stdnoise=0.0).data for t, p, h in ((dt, P, 1.0), (dt * k, P * k, g))]
        out = g
    r, q = np.asarray(r, float), np.asarray(q, float) / out
    tol = 2e-5 * max(np.abs(r).max(initial=0), np.abs(x).max() * (1e-2 if op in ("deredden", "fold", "downsample") else 0) )
    if op == "snr":
        tol = 2e-5 * (np.abs(r).max() + np.abs(x).astype(float).sum() / 1.5 / math.sqrt(n) )
    check_close(q, r, tol, f"{op} with time x {k} and data x {g}")
    return [op] + (["trivial"] if k == 1 and g == 1 else [])


# ---------------------------------------------------------------- pipeline on one DM trial

def gen_pipe():
    s = st()
    return case(time=scales(), amp=often(5, scales(), s.just(1.0)), fmt=s.just("presto"), dms=s.just([0.0]) , n=s.integers(1500, 4000), tsamp=s.sampled_from([2.0 ** -10, 1e-3, 0.01]), bmin=s.integers(16, 30), grow=s.lists(s.floats(1.2, 2.0), min_size=1, max_size=2), best=s.just(0), seed=seeds(), u=finite(0.05, 0.9), a=s.floats(0.8, 3.0), width=s.floats(0.02, 0.15), maxn=s.one_of(s.none(), s.integers(1, 5)), procs=s.integers(1, 2), radius=s.sampled_from([0.1, 0.3, 1.0]), harm=s.booleans())


def run_pipe(c):
    """sampling time, periods and filter width scaled: the same candidates in the other unit of time"""
    from riptide.pipeline import Pipeline
    res = []
    with scratch_dir() as d:
        for i, (k, g) in enumerate([(1.0, 1.0), (c["time"], c["amp"])]):
            full = {"edge": False, "bare": False, "skip": 1.2, "dmin": None, "dmax": None, "cap": None, "rmed": "scrunched", "band": 0.3, "red": False, "short": [0] * 7, "plot": False, **c,
                    "ranges": [dict(grow=v, db=2, fpmin=None, ducy=None, wtsp=None, smin=6.0, segwidth=None, nstd=None, clrad=None, polydeg=None, cand=8, sub=4) for v in c["grow"]], "procs": [c["procs"]] * 2}
            full["amp"] = c["a"]
            full["tsamp"] = c["tsamp"] * k
            conf, edges = c22.setting(full)
            for r in conf["ranges"]:
                r["find_peaks"]["minseg"] = 10 ** 6
            conf["candidate_filters"]["remove_harmonics"] = c["harm"]
            sub = os.path.join(os.path.realpath(d), str(i))
            os.mkdir(sub)
            if i == 0:
                files, _ = c22.write(full, sub, "presto", edges)
                x = np.fromfile(list(files.values())[0][:-4] + ".dat", dtype=np.float32)
            f = c18.write_presto(sub, "g", 0.0, full["tsamp"], x=x * np.float32(g))
            pl = c22.process(conf, [f], os.path.join(sub, "out"))
            res.append(pl)
    a, b = res
    k = c["time"]
    require(len(a.peaks) == len(b.peaks) and all((p.iw, p.ip, p.width) == (q.iw, q.ip, q.width) and abs(q.period - k * p.period) <= 1e-9 * q.period and abs(p.snr - q.snr) <= 1e-3 * (1 + p.snr) for p, q in zip(a.peaks, b.peaks)), f"{len(a.peaks)} peaks, {len(b.peaks)} with time x {k} and data x {c['amp']}")
    info = lambda pl: [(len(cl), cl.is_harmonic, str(cl.hfrac)) for cl in sorted(pl.clusters, key=lambda q: q.rank if q.rank is not None else -1)]
    require(info(a) == info(b), f"clusters by rank (size, harmonic, fraction) {info(a)[:8]}, with time x {k}: {info(b)[:8]}")
    require(len(a.candidates) == len(b.candidates), f"{len(a.candidates)} candidates, {len(b.candidates)} with time x {k}")
    for p, q in zip(a.candidates, b.candidates):
        require(abs(q.params["period"] - k * p.params["period"]) <= 1e-9 * q.params["period"], f"period of a candidate {q.params['period']}, {p.params['period']} before, time x {k}")
        check_close(q.subints, np.asarray(p.subints, float), 1e-4 * np.abs(p.subints).max(), "subints of a candidate")
    return ["candidates=%d" % min(3, len(a.candidates))] + ([] if a.candidates else ["trivial"])


PROP = Prop("C32", [
    Sub("search", gen, run, 2400, 60000, "search and peak detection repeated with sampling time, periods and filter width in another unit, data in another unit, other metadata; non-trivial with at least two trials and another unit", shards=(4, 8)),
    Sub("operations", gen_ts, run_ts, 2000, 40000, "operations on time series in two units; non-trivial with another unit", shards=(2, 4)),
    Sub("pipeline", gen_pipe, run_pipe, 120, 2000, "a pipeline run on one DM trial in two units of time; non-trivial if there are candidates", shards=(2, 8)),
], assumptions=["units differ by powers of two, so that nothing but thresholds at rounding distance may differ", "thresholds at rounding distance are skipped and counted"])
