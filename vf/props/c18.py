import math, os
import numpy as np
from ..core import *

KDM = 1.0 / 2.41e-4


def band():
    s = st()
    return case(fbot=s.one_of(s.sampled_from([1182.1953125, 300.0, 4000.0]), s.floats(50.0, 8000.0)), nchan=s.one_of(s.sampled_from([1024, 64, 4]), logint(2, 4096)),
                frac=s.one_of(s.sampled_from([0.25, 0.05]), s.floats(0.005, 1.5)), inverted=s.booleans())


def edges(b):
    """fmin, fmax, nchans and the value of cbw, fbot that go into an inf file"""
    cbw = b["fbot"] * b["frac"] / b["nchan"]
    if b["inverted"]:   # negative channel bandwidth: fbot is the top of the band
        fbot = b["fbot"] * (1 + b["frac"])
        cbw = -cbw
    else:
        fbot = b["fbot"]
    a, z = fbot, fbot + b["nchan"] * cbw
    return min(a, z), max(a, z), b["nchan"], fbot, cbw


def dms():
    """lists of DM trials: uniform grids, optimal-like grids, random, clustered"""
    s = st()
    return case(kind=s.sampled_from(["grid", "grid", "geo", "random", "clustered", "steps"]), n=often(25, logint(1, 60), logint(60, 600)), step=s.one_of(s.sampled_from([0.01, 0.1, 1.0]), logfloat(1e-3, 30.0)),
                start=s.one_of(s.just(0.0), s.floats(0, 500)), zero=s.booleans(), seed=seeds())


def trials(d):
    n, rng = d["n"], np.random.Generator(np.random.PCG64(d["seed"]))
    i = np.arange(n)
    x = {"grid": lambda: d["start"] + i * d["step"], "geo": lambda: d["start"] + d["step"] * (1.15 ** i - 1), "random": lambda: d["start"] + rng.random(n) * d["step"] * n,
         "clustered": lambda: d["start"] + np.floor(rng.random(n) * 4) * d["step"] * 20 + rng.random(n) * d["step"], "steps": lambda: d["start"] + np.cumsum(d["step"] * 2.0 ** rng.integers(0, 5, size=n))}[d["kind"]]()
    x = sorted(set(float(f"{v:.6f}") for v in x) | ({0.0} if d.get("zero") else set()))
    return [x[j] for j in rng.permutation(len(x))]


def coverage(dm, fmin, fmax, nch, wmin):
    kdisp = KDM * (fmin ** -2 - fmax ** -2)
    cw = (fmax - fmin) / nch
    mid = (fmax + fmin) / 2
    ks = KDM * ((mid - cw / 2) ** -2 - (mid + cw / 2) ** -2)
    r = max(wmin, ks * dm) / kdisp
    return dm - r, dm + r


def model(avail, lo, hi, fmin, fmax, nch, wmin):
    """[selected], ambiguous; each step is the longest that leaves no gap, at least one trial"""
    x = sorted(v for v in avail if lo <= v <= hi)
    cov = [coverage(v, fmin, fmax, nch, wmin) for v in x]
    eps = 1e-9 * max(1.0, max((abs(v) for v in x), default=1.0))
    amb = any(min(abs(v - lo), abs(v - hi)) < eps and v not in (lo, hi) for v in avail)
    out, i = x[:1], 0
    while i < len(x) - 1:
        j = i + 1
        while j + 1 < len(x) and cov[j + 1][0] <= cov[i][1]:
            j += 1
        for k in range(i + 1, min(j + 2, len(x))):
            amb |= abs(cov[k][0] - cov[i][1]) < eps
        out.append(x[j])
        i = j
    return out, amb, x, cov


def fewest(x, cov):
    """smallest number of trials of a gapless chain from first to last (adjacent trials may always follow each other)"""
    best = [0] * len(x)
    for i in range(len(x) - 2, -1, -1):
        best[i] = 1 + min(best[j] for j in range(i + 1, len(x)) if j == i + 1 or cov[j][0] <= cov[i][1])
    return (best[0] + 1) if x else 0


def check_selection(sel, avail, lo, hi, fmin, fmax, nch, wmin):
    exp, amb, x, cov = model(avail, lo, hi, fmin, fmax, nch, wmin)
    if amb:
        raise Skip("coverage or limit coincides to rounding")
    sel = [float(v) for v in sel]
    require(sel == exp, f"selected DM trials {sel}, the longest gapless steps through {x} are {exp}")
    require(len(sel) == fewest(x, cov), f"{len(sel)} trials selected, {fewest(x, cov)} are enough to cover the same range")
    forced = any(coverage(b, fmin, fmax, nch, wmin)[0] > coverage(a, fmin, fmax, nch, wmin)[1] for a, b in zip(sel, sel[1:]))
    lab = ["forced-gap" if forced else "gapless", "one" if len(sel) == 1 else "all" if len(sel) == len(x) else "subset"]
    if len(sel) == len(x):
        lab.append("trivial")
    return lab


def gen_select():
    s = st()
    return case(dms=dms(), band=band(), wmin=logfloat(1e-5, 1.0), lo=s.floats(-0.2, 0.7), hi=s.floats(0.3, 1.2), full=s.booleans(), snap=s.booleans(), zeros=often(4, s.none(), s.sampled_from(["lo", "hi", "both"])), radius=s.one_of(s.none(), logfloat(0.3, 20.0)))


def limits(c, x):
    span = max(x) - min(x) or 1.0
    if c["full"]:
        return min(x), max(x)
    a, z = min(x) + c["lo"] * span, min(x) + c["hi"] * span
    if c.get("zeros"):      # a limit of exactly 0
        return (0.0, z) if c["zeros"] == "lo" else (0.0, 0.0) if c["zeros"] == "both" else (a if a <= 0 else 0.0, 0.0)
    if c["snap"]:   # limits equal to trials are included
        a, z = min(x, key=lambda v: abs(v - a)), min(x, key=lambda v: abs(v - z))
    return a, z


def min_width(c):
    """width such that the coverage radius is 'radius' typical steps, else the width drawn"""
    if c["radius"] is None:
        return c["wmin"]
    fmin, fmax, nch, *_ = edges(c["band"])
    return float(c["radius"] * c["dms"]["step"] * KDM * (fmin ** -2 - fmax ** -2))


def run_select(c):
    from riptide.pipeline.dmiter import select_dms
    x = trials(c["dms"])
    fmin, fmax, nch, *_ = edges(c["band"])
    lo, hi = limits(c, x)
    w = min_width(c)
    if not any(lo <= v <= hi for v in x):
        must_raise((ValueError,), select_dms, x, lo, hi, fmin, fmax, nch, w)
        return ["empty", "trivial"]
    keep = list(x)
    lab = check_selection(call(select_dms, x, lo, hi, fmin, fmax, nch, w), x, lo, hi, fmin, fmax, nch, w)
    require(x == keep, "the list of trials was modified")
    return lab + [c["dms"]["kind"]]


INF = """ Data file name without suffix          =  {base}
 Telescope used                         =  Parkes
 Instrument used                        =  Multibeam
 Object being observed                  =  SRC
 J2000 Right Ascension (hh:mm:ss.ssss)  =  {raj}
 J2000 Declination     (dd:mm:ss.ssss)  =  {decj}
 Data observed by                       =  Someone
 Epoch of observation (MJD)             =  59000.000000
 Barycentered?           (1 yes, 0 no)  =  1
 Number of bins in the time series      =  {nsamp}
 Width of each time series bin (sec)    =  {tsamp!r}
 Any breaks in the data? (1 yes, 0 no)  =  0
 Type of observation (EM band)          =  Radio
 Beam diameter (arcsec)                 =  981
 Dispersion measure (cm-3 pc)           =  {dm!r}
 Central freq of low channel (Mhz)      =  {fbot!r}
 Total bandwidth (Mhz)                  =  400
 Number of channels                     =  {nchan}
 Channel bandwidth (Mhz)                =  {cbw!r}
 Data analyzed by                       =  Someone
"""


def write_presto(d, name, dm, tsamp, raj="12:00:00.0000", decj="-30:00:00.0000", fbot=1200.0, nchan=64, cbw=5.0, x=None, nsamp=None):
    base = os.path.join(d, name)
    with open(base + ".inf", "w") as f:
        f.write(INF.format(base=name, raj=raj, decj=decj, nsamp=nsamp if nsamp is not None else 1000 if x is None else len(x), tsamp=tsamp, dm=dm, fbot=fbot, nchan=nchan, cbw=cbw))
    if x is not None:
        np.asarray(x, dtype=np.float32).tofile(base + ".dat")
    return base + ".inf"


def write_sigproc(d, name, dm, tsamp, ra=120000.0, dec=-300000.0, x=None, nsamp=1000, tstart=59000.0, bare=False):
    from .c16 import pack
    items = [("source_name", "s", "SRC"), ("src_raj", "d", ra), ("src_dej", "d", dec), ("tsamp", "d", tsamp), ("nbits", "i", 32), ("nchans", "i", 1), ("refdm", "d", dm), ("tstart", "d", tstart)]
    if bare:    # no source name and no date
        items = [v for v in items if v[0] not in ("source_name", "tstart")]
    p = os.path.join(d, name + ".tim")
    data = np.zeros(nsamp, dtype=np.float32) if x is None else np.asarray(x, dtype=np.float32)
    with open(p, "wb") as f:
        f.write(pack(items) + data.tobytes())
    return p


def gen_iter():
    s = st()
    return case(dms=dms().map(lambda d: dict(d, n=min(d["n"], 25))), band=band(), wmin=logfloat(1e-4, 0.3), radius=s.one_of(s.none(), logfloat(0.3, 20.0)), lo=s.floats(-0.2, 0.7), hi=s.floats(0.3, 1.2), full=s.booleans(), snap=s.booleans(), zeros=often(4, s.none(), s.sampled_from(["lo", "hi", "both"])), none=s.sampled_from(["both", "start", "end", "no", "no"]),
                fmt=s.sampled_from(["presto", "presto", "sigproc"]), ra=s.integers(0, 23), dec=s.integers(-89, 89), cap=s.one_of(s.none(), often(4, s.floats(0.05, 1.3), s.floats(-0.5, 0.05))), chunks=s.lists(s.integers(1, 9), min_size=1, max_size=3),
                tsamps=seeds(), oddband=s.integers(0, 5), oddcoord=s.integers(0, 5), given=s.sampled_from([True, True, True, False]), both=s.booleans())


def run_iter(c):
    from riptide.pipeline.dmiter import DMIterator
    from astropy.coordinates import SkyCoord
    x = trials(c["dms"])
    fmin, fmax, nch, fbot, cbw = edges(c["band"])
    lo, hi = limits(c, x)
    w = min_width(c)
    rng = np.random.Generator(np.random.PCG64(c["tsamps"]))
    many = len(x) > 1
    oddband, oddcoord = many and c["fmt"] == "presto" and c["oddband"] == 5, many and c["oddcoord"] == 5
    j = int(rng.integers(0, len(x)))
    with scratch_dir() as d:
        d = os.path.realpath(d)
        names, ts, tobs = {}, [], []
        for i, dm in enumerate(x):
            ra, dec = c["ra"], c["dec"]
            if oddcoord and i == j:
                ra = (ra + 1) % 24
            n, t = int(rng.integers(5, 50)), float(rng.integers(1, 9)) * 1e-3
            ts.append(t)
            tobs.append(n * t)
            tag = f"f{rng.integers(0, 10 ** 6):06d}_{i}"
            if c["fmt"] == "presto":
                names[dm] = write_presto(d, tag, dm, t, raj=f"{ra:02d}:00:00.0000", decj=f"{dec:+03d}:00:00.0000".replace("+", ""), fbot=fbot + (1.0 if oddband and i == j else 0.0), nchan=nch, cbw=cbw, nsamp=n)
            else:
                names[dm] = write_sigproc(d, tag, dm, t, ra=ra * 1e4, dec=dec * 1e4, nsamp=n)
        files = [names[dm] for dm in x]
        kw = {}
        band = (fmin, fmax, nch)
        if c["fmt"] == "sigproc" or oddband:
            if c["given"]:
                kw = dict(fmin=fmin, fmax=fmax, nchans=nch)
        elif c["both"]:   # ignored: the files know better
            kw = dict(fmin=fmin / 3, fmax=fmax * 3, nchans=2)
        start = None if c["none"] in ("both", "start") else lo
        end = None if c["none"] in ("both", "end") else hi
        glat = SkyCoord(c["ra"] * 15.0, c["dec"], unit="deg").galactic.b.deg
        sinb = abs(math.sin(math.radians(glat)))
        dmsinb = None if c["cap"] is None else max(1e-3, (min(x) + c["cap"] * (max(x) - min(x) or 1.0)) * sinb)
        a = start if start is not None else min(x)
        z = end if end is not None else max(x)
        if dmsinb is not None:
            z = min(z, dmsinb / sinb)
        args = dict(dmsinb_max=dmsinb, fmt=c["fmt"], wmin=w, **kw)
        if oddcoord:
            must_raise((RuntimeError, ValueError), DMIterator, files, start, end, **args)
            return ["inconsistent-coords"]
        if (c["fmt"] == "sigproc" or oddband) and not kw:
            must_raise((ValueError, RuntimeError), DMIterator, files, start, end, **args)
            return ["no-band"]
        if any(v not in (a, z) and min(abs(v - a), abs(v - z)) < 1e-7 for v in x) or (dmsinb is not None and any(abs(v - dmsinb / sinb) < 1e-7 * max(1.0, v) for v in x)):
            raise Skip("limit coincides to rounding")
        if not any(a <= v <= z for v in x):
            must_raise((ValueError,), DMIterator, files, start, end, **args)
            return ["empty", "trivial"]
        it = call(DMIterator, files, start, end, **args)
        lab = check_selection(it.selected_dms, x, a, z, *band, w)
        sel = [float(v) for v in it.selected_dms]
        for k in c["chunks"]:
            got = [list(ch) for ch in call(lambda: list(it.iterate_filenames(chunksize=k)))]
            exp = [names[v] for v in sel]
            require(sum(got, []) == exp, f"files served {sum(got, [])}, expected {exp}")
            require(all(len(ch) == k for ch in got[:-1]) and (not got or 1 <= len(got[-1]) <= k), f"chunks of sizes {[len(ch) for ch in got]} for chunksize {k}")
        for v in sel:
            require(call(it.get_filename, v) == names[v], f"wrong file name for DM {v}")
        require(abs(it.tobs_median() - float(np.median(tobs))) <= 1e-9 * max(tobs), f"median tobs {it.tobs_median()}, expected {np.median(tobs)}")
        require(it.tsamp_max() == max(ts), f"tsamp_max {it.tsamp_max()}, expected {max(ts)}")
        require(abs(it.fmin - fmin) < 1e-9 * fmin and abs(it.fmax - fmax) < 1e-9 * fmax and it.nchans == nch, f"band {it.fmin} {it.fmax} {it.nchans}, expected {band}")
        return lab + [c["fmt"], "cap" if dmsinb is not None and z == dmsinb / sinb else "nocap", f"band-{'given' if kw else 'inferred'}"]


def gen_prepare():
    s = st()
    return case(dms=dms().map(lambda d: dict(d, n=min(d["n"], 20))), band=band(), wmin=logfloat(1e-4, 0.3), radius=often(4, logfloat(0.3, 20.0), s.none()), lo=s.floats(-0.2, 0.7), hi=s.floats(0.3, 1.2), full=s.booleans(), snap=s.booleans(), zeros=often(4, s.none(), s.sampled_from(["lo", "hi", "both"])), none=s.sampled_from(["both", "start", "end", "no", "no"]),
                fmt=s.sampled_from(["presto", "sigproc"]), ra=s.integers(0, 23), dec=s.integers(-89, 89), cap=s.one_of(s.none(), often(4, s.floats(0.05, 1.3), s.floats(-0.5, 0.05))), seed=seeds(), both=s.booleans(), asint=s.booleans(),
                bins=s.lists(s.integers(8, 300), min_size=1, max_size=4), grow=s.lists(s.sampled_from([1.2, 2.0, 5.0]), min_size=4, max_size=4), procs=s.integers(1, 4), whole=s.booleans())


def run_prepare(c):
    """the selection made by Pipeline.prepare() from its configuration"""
    from riptide.pipeline import Pipeline
    from astropy.coordinates import SkyCoord
    from .c19 import conf_of
    x = trials(c["dms"])
    fmin, fmax, nch, fbot, cbw = edges(c["band"])
    lo, hi = limits(c, x)
    if c["asint"]:
        lo, hi = math.floor(lo), math.ceil(hi)
    n = len(c["bins"])
    p = [1.0]
    for g in c["grow"][:n]:
        p.append(p[-1] * g)
    scale = min_width(c) / min(p[i] / c["bins"][i] for i in range(n))
    p = [v * scale for v in p]
    w = min(p[i] / c["bins"][i] for i in range(n))
    t = w * 0.9
    rg = [{"name": f"r{i}", "ffa_search": {"period_min": p[i], "period_max": p[i + 1], "bins_min": b, "bins_max": b + 1 + b // 10}, "find_peaks": {}, "candidates": {"bins": max(1, b // 2), "subints": None}} for i, b in enumerate(c["bins"])]
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    start = None if c["none"] in ("both", "start") else lo
    end = None if c["none"] in ("both", "end") else hi
    sinb = abs(math.sin(SkyCoord(c["ra"] * 15.0, c["dec"], unit="deg").galactic.b.rad))
    cap = None if c["cap"] is None else max(1e-3, (min(x) + c["cap"] * (max(x) - min(x) or 1.0)) * sinb)
    a, z = min(x) if start is None else start, max(x) if end is None else end
    if cap is not None:
        z = min(z, cap / sinb)
    if any(v not in (a, z) and min(abs(v - a), abs(v - z)) < 1e-7 for v in x) or (cap is not None and any(abs(v - cap / sinb) < 1e-7 * max(1.0, v) for v in x)):
        raise Skip("limit coincides to rounding")
    conf = conf_of(rg, c["fmt"])
    conf["processes"] = c["procs"]
    conf["dmselect"] = {"min": start, "max": end, "dmsinb_max": cap}
    if c["fmt"] == "sigproc":
        conf["data"].update(fmin=fmin, fmax=fmax, nchans=nch)
    elif c["both"]:
        conf["data"].update(fmin=fmin / 3, fmax=fmax * 3, nchans=2)
    with scratch_dir() as d:
        d = os.path.realpath(d)
        names = {}
        for i, dm in enumerate(x):
            tag = f"f{rng.integers(0, 10 ** 6):06d}_{i}"
            if c["fmt"] == "presto":
                names[dm] = write_presto(d, tag, dm, t, raj=f"{c['ra']:02d}:00:00.0000", decj=f"{c['dec']:+03d}:00:00.0000".replace("+", ""), fbot=fbot, nchan=nch, cbw=cbw, nsamp=10)
            else:
                names[dm] = write_sigproc(d, tag, dm, t, ra=c["ra"] * 1e4, dec=c["dec"] * 1e4, nsamp=10)
        pl = call(Pipeline, conf)
        with quiet():
            if not any(a <= v <= z for v in x):
                must_raise((ValueError,), pl.prepare, list(names.values()))
                return ["empty", "trivial"]
            call(pl.prepare, list(names.values()))
        lab = check_selection(pl.dmiter.selected_dms, x, a, z, fmin, fmax, nch, w)
        got = [list(ch) for ch in pl.dmiter.iterate_filenames(chunksize=c["procs"])]
        require(sum(got, []) == [names[float(v)] for v in pl.dmiter.selected_dms], f"files to search: {got}")
    return lab + [c["fmt"], f"ranges-{n}", "narrowest-later" if n > 1 and w < p[0] / c["bins"][0] * 0.999 else "narrowest-first"]


PROP = Prop("C18", [
    Sub("select", gen_select, run_select, 3000, 60000, "select_dms on generated lists of trial DMs, bands and widths; non-trivial if some but not all available trials are selected"),
    Sub("iterator", gen_iter, run_iter, 500, 8000, "DMIterator on generated sets of PRESTO or SIGPROC files; non-trivial unless all or no trials are selected", shards=(4, 8)),
    Sub("prepare", gen_prepare, run_prepare, 300, 5000, "the selection made by Pipeline.prepare() from a configuration with 1 to 4 search ranges, DM limits and a Galactic cap; non-trivial unless all or no trials are selected", shards=(2, 6)),
], assumptions=["cases where a coverage interval ends where another one starts, or a limit equals a trial, to rounding, are skipped (counted)", "DM trials are distinct"])
