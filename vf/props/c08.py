import math
import numpy as np
from ..core import *
from .. import ref
from .c07 import search_params, search


def model(x, entries, widths):
    """{index of entry: (snr, tol)} for the rows that may be evaluated, from the raw input and float64 models only."""
    cache = {}
    out = []
    for f, n, b, rows, lo, hi in entries:
        if f not in cache:
            if f == 1:
                cache = {f: (np.asarray(x, dtype=float), 0.0)}
            else:
                y, t = ref.downsample(x, f)
                cache = {f: (y, t)}
        y, t = cache[f]
        X = y[:rows * b].reshape(rows, b)
        A = np.abs(X).sum(axis=0).max()
        e = (math.ceil(math.log2(rows)) + 2) * 6e-8 * A      # one float32 rounding per level of the transform
        if f != 1:
            e += t[:rows * b].reshape(rows, b).sum(axis=0).max()
        std = math.sqrt(rows * ref.mean_variance(len(x), f))
        F = ref.ffa(X)[:hi]
        s, ts = ref.boxcar_snr(F, widths, std)
        w = np.asarray(widths, dtype=float)
        extra = 2 * np.sqrt(w * (b - w) / b) * e / std
        out.append((s, ts + extra[None, :] + 4e-7 * np.abs(s)))
    return out


def gen():
    return search_params(2500, 60).flatmap(lambda p: case(p=st().just(p), data=arrays(p["N"], kinds=("noise", "int", "spikes", "walk", "uniform"), amax=20),
                                                      ducy=st().sampled_from([0.1, 0.3, 0.5, 0.9]), wtsp=st().sampled_from([1.2, 1.5, 2.0, 5.0]),
                                                      cut=finite(0.05, 1.0)))


def gen_large():
    return search_params(40000, 250).flatmap(lambda p: case(p=st().just(p), data=arrays(p["N"], kinds=("noise", "int", "walk"), amax=20),
                                                            ducy=st().sampled_from([0.1, 0.3]), wtsp=st().sampled_from([1.5, 2.0]), cut=finite(0.05, 1.0)))


def run(c):
    p = c["p"]
    N, tsamp = p["N"], p["tsamp"]
    pmax = min(p["pmax"], N * tsamp)
    if not p["pmin"] < pmax:
        return ["trivial"]
    try:
        entries = ref.grid(N, tsamp, p["pmin"], pmax, p["bmin"], p["bmax"])
    except ref.Ambiguous as e:
        raise Skip(str(e))
    x = make_array(c["data"])
    pg = search(x, p, ducy_max=c["ducy"], wtsp=c["wtsp"])
    widths = [int(w) for w in pg.widths]
    require(all(1 <= w < p["bmin"] for w in widths), f"widths {widths} with bins_min {p['bmin']}")
    try:
        m, complaint = ref.match_grid(entries, tsamp, pg.periods, pg.foldbins, unique=True)
    except ref.Ambiguous as e:
        raise Skip(str(e))
    if m is None:
        raise Violation(complaint)
    for (e, i, cnt), (s, t) in zip(m, model(x, entries, widths)):
        check_close(pg.snrs[i:i + cnt], s[:cnt], t[:cnt], f"S/N of the trials of {e[2]} bins, {e[3]} rows, downsampling {e[0]!r} of N={N} [{p}]")
    # same trials whatever the rest of the range and the other widths
    lb = []
    scale = float(np.abs(pg.snrs).max()) if pg.snrs.size else 0.0
    cut = p["pmin"] * (pmax / p["pmin"]) ** c["cut"]
    if cut > p["pmin"] * (1 + 1e-6) and len(pg.periods):
        q = search(x, {**p, "pmax": cut}, ducy_max=c["ducy"], wtsp=c["wtsp"])
        try:
            mq, complaint = ref.match_grid(ref.grid(N, tsamp, p["pmin"], cut, p["bmin"], p["bmax"]), tsamp, q.periods, q.foldbins, unique=True)
        except ref.Ambiguous as e:
            raise Skip(str(e))
        if mq is None:
            raise Violation(complaint)
        full = {e[:4]: (i, cnt) for e, i, cnt in m}
        for e, j, cq in mq:
            i, cnt = full[e[:4]]
            k = min(cnt, cq)
            require(np.all(np.abs(pg.snrs[i:i + k] - q.snrs[j:j + k]) <= 1e-5 * scale), f"S/N of the trials of {e[2]} bins depend on period_max ({pmax!r}, {cut!r})")
        lb.append("subrange")
    q = search(x, p, ducy_max=c["ducy"], wtsp=9.0)
    for j, w in enumerate(q.widths):
        if w in widths:
            require(np.all(np.abs(q.snrs[:, j] - pg.snrs[:, widths.index(w)]) <= 1e-5 * scale), f"S/N at width {w} depends on the other widths")
    ks = {min(4, math.floor(e[0])) for e in entries}
    lb += [f"floor(f)={k}" for k in sorted(ks)] + (["f=1"] if any(e[0] == 1 for e in entries) else []) + (["many-widths"] if len(widths) > 3 else [])
    if len({e[0] for e in entries}) > 1:
        lb.append("several-downsamplings")
    if len(pg.periods) == 0 or not np.any(x):
        lb.append("trivial")
    return lb


# ---- calibration: white noise of unit variance gives S/N of unit variance

def gen_cal():
    s = st()
    # fractional parts far from simple fractions: the phases of the samples are then evenly spread
    frac = s.sampled_from([0.0, 0.6180339887, 0.3819660113, 0.4142135624, 0.7320508076, 0.2360679775, 0.8541019662])
    return case(f=s.tuples(s.one_of(s.integers(1, 4), s.integers(1, 30)), frac).map(lambda t: float(t[0] + t[1])), rows=s.integers(5, 40), b=s.integers(10, 40))


def run_cal(c):
    """The downsampled, folded noise in any fixed box has the variance assumed for stdnoise, over many noise realisations."""
    from riptide import libcpp
    b, rows, f = c["b"], c["rows"], c["f"]
    N = int(math.ceil(rows * b * f)) + 1
    # exact variance of the downsampled samples: sum of the squared weights, averaged over phases
    n = math.floor(N / f)
    k = np.arange(n)
    lo, hi = k * f, np.minimum(k * f + f, N)
    il, ih = np.floor(lo), np.minimum(np.floor(hi), N - 1)
    wl = np.where(ih > il, il + 1 - lo, hi - lo)
    wh = np.where(ih > il, hi - ih, 0.0)
    var = np.mean(wl ** 2 + wh ** 2 + np.maximum(0, ih - il - 1))
    # what the code assumes: recovered from the S/N of an impulse, which the transform does not change in height
    y = np.zeros(N, dtype=np.float32)
    c0 = int(N // 2)
    y[c0] = 1.0
    d = libcpp.downsample(y, f) if f > 1 else y
    P, B, S = call(libcpp.periodogram, y, 1.0, np.asarray([1]), f * b, f * b * (1 + 0.9 / b), b, b)
    if not len(P) or abs(P[0] - f * b) > 1e-9:
        raise Skip("range without the base period")
    m = n // b
    prof = d[:m * b].reshape(m, b).sum(axis=0, dtype=float)
    s, t = ref.boxcar_snr(prof, [1], 1.0)
    if s[0, 0] < 1e-3:
        raise Skip("impulse beyond the whole periods")
    v = (s[0, 0] / S[0, 0]) ** 2 / m
    require(abs(v / var - 1) < 0.01 + 2.0 / n, f"noise variance assumed for downsampling by {f!r} of {N} samples is {v!r}, the mean of the actual ones is {var!r}")
    return [f"floor(f)={min(5, math.floor(f))}"] + (["trivial"] if f == 1.0 else [])


PROP = Prop("C08", [
    Sub("values", gen, run, 3000, 150000, "searches of noise, integers, spikes and random walks; every S/N against downsample -> FFA -> boxcar models in float64 with a rounding error bound, in units of sqrt(m v); prefix ranges and other width trials must give the same values; non-trivial: at least one trial and data not all zero", shards=(4, 7)),
    Sub("large", gen_large, run, 60, 2000, "the same with up to 40000 samples and 290 bins", shards=(2, 3)),
    Sub("calibration", gen_cal, run_cal, 400, 20000, "the noise variance used by the S/N, recovered from the response to an impulse, against the exact mean of the squared weights of the downsampled samples; non-trivial: downsampling > 1", shards=(1, 2)),
], assumptions=["finite data"])
