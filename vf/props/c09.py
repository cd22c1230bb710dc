import math
import numpy as np
from ..core import *
from .. import ref
from .c07 import search_params


def gen():
    s = st()

    def of(p):
        N, dt = p["N"], p["tsamp"]
        return case(p=s.just(p), data=arrays(N, kinds=("noise", "int", "walk", "uniform", "spikes"), amax=20),
                    deredden=s.booleans(), norm=s.booleans(), defaults=s.booleans(),
                    rw=finite(0.01, 0.9), minpts=s.integers(1, 25).map(lambda k: 2 * k + 1),
                    ducy=s.one_of(finite(0.001, 0.95), s.sampled_from([0.05, 0.1, 0.2, 0.25, 0.5])), wtsp=s.one_of(s.sampled_from([1.0, 1.1, 1.5, 2.0, 3.0]), finite(1.0, 4.0)),
                    fpmin=s.one_of(s.sampled_from([1, 2, 8, 10]), s.integers(1, 40)),
                    meta=s.sampled_from([{}, {"source_name": "J0000-00", "dm": 12.5, "mjd": None}, {"fname": "/a/b.dat", "extra": [1, 2, "x"]}]))
    return search_params(3000, 60).flatmap(of)


def run(c):
    import riptide
    from riptide import libcpp
    p = c["p"]
    N, dt = p["N"], p["tsamp"]
    x = make_array(c["data"])
    T = N * dt
    # the running median window must fit in the data, and its scrunched version too
    wi = max(1, int(c["rw"] * N))
    mp = c["minpts"]
    factor = max(1, int(wi / mp))
    if factor == 1:
        wi |= 1
        fits = wi < N
    else:
        fits = mp < N // factor
    dered = c["deredden"] and fits
    ts = riptide.TimeSeries(f32(x), dt, metadata=c["meta"])
    keep, meta = ts.data.copy(), dict(ts.metadata)
    kw = dict(period_min=p["pmin"], period_max=p["pmax"], fpmin=c["fpmin"], bins_min=p["bmin"], bins_max=p["bmax"], ducy_max=c["ducy"], wtsp=c["wtsp"],
              deredden=dered, rmed_width=wi * dt, rmed_minpts=mp, already_normalised=not c["norm"])
    ducy, wtsp, fpmin = c["ducy"], c["wtsp"], c["fpmin"]
    if c["defaults"]:
        for k in ("ducy_max", "wtsp", "fpmin"):
            kw.pop(k)
        ducy, wtsp, fpmin = 0.20, 1.5, 8
        if dered and mp == 101:
            kw.pop("rmed_minpts")
    y = f32(x).astype(float)
    tol = 0.0
    if dered:
        r, exact = ref.fast_running_median(f32(x), wi, mp)
        y = y - r
        tol = np.abs(x).max() * 3e-7 * (4 + math.log2(factor + 1)) + 1e-30
    if c["norm"]:
        y32 = f32(y).astype(float)
        sd = y32.std()
        if sd <= 1e-4 * np.abs(x).max() + 10 * tol:
            raise Skip("the data to normalise are constant to rounding")
        k = (tol * 3 / sd) if dered else 0.0
        y = (y32 - y32.mean()) / sd
        tol = 4 * k * (1 + np.abs(y).max()) + 4e-7 * (np.abs(y).max() + np.abs(y32).max() / sd)
    out, pg = call(riptide.ffa_search, ts, **kw)
    lb = [("deredden" if dered else "raw") + ("+normalise" if c["norm"] else "")]
    require(same(ts.data, keep) and dict(ts.metadata) == meta and ts.tsamp == dt, "ffa_search modified its input")
    require(isinstance(out, riptide.TimeSeries) and isinstance(pg, riptide.Periodogram), "types")
    require(out.data.dtype == np.float32 and out.tsamp == dt, "dtype or sampling time of the searched data")
    check_close(out.data, y, tol, f"searched data ({kw})")
    require(dict(out.metadata) == meta, "metadata of the searched data")
    require(dict(pg.metadata) == meta and pg.tobs == ts.length, "metadata of the periodogram")
    W = ref.width_trials(p["bmin"], ducy, wtsp)
    require([int(w) for w in pg.widths] == W, f"width trials {list(pg.widths)}, expected {W}")
    cap = ts.length / fpmin
    if p["pmin"] >= cap:
        require(len(pg.periods) == 0 and len(pg.foldbins) == 0 and pg.snrs.shape == (0, len(W)), "periods above the cap")
        return lb + ["above-cap"]
    P, B, S = call(libcpp.periodogram, out.data, dt, np.asarray(W), p["pmin"], min(p["pmax"], cap), p["bmin"], p["bmax"])
    require(same(P, pg.periods) and same(B, pg.foldbins) and same(S, pg.snrs), "not the periodogram of the returned data with the documented parameters")
    require(np.array_equal(pg.freqs, 1.0 / pg.periods), "freqs")
    if len(P):
        require(pg.periods.max() <= cap * (1 + 1e-9), "trial above the cap")
    lb.append("capped" if p["pmax"] > cap else "uncapped")
    if len(W) > 2:
        lb.append("several-widths")
    if len(P) == 0:
        lb.append("trivial")
    return lb


def gen_w():
    s = st()
    return case(n=logint(2, 2000), ducy=s.one_of(finite(0.0, 0.99), s.sampled_from([0.1, 0.2, 0.3, 0.5])), wtsp=s.one_of(finite(1.0, 5.0), s.sampled_from([1.0, 1.1, 1.25, 1.5, 2.0, 3.0])))


def run_w(c):
    from riptide.ffautils import generate_width_trials
    W = call(generate_width_trials, c["n"], ducy_max=c["ducy"], wtsp=c["wtsp"])
    exp = ref.width_trials(c["n"], c["ducy"], c["wtsp"])
    require([int(w) for w in W] == exp and W.dtype.kind in "iu", f"width trials {list(W)}, expected {exp}")
    return ["trivial"] if len(exp) == 1 else ["short" if len(exp) < 5 else "long"]


DEFAULTS = dict(period_min=1.0, period_max=30.0, fpmin=8, bins_min=240, bins_max=260, ducy_max=0.20, wtsp=1.5, deredden=True, rmed_width=4.0, rmed_minpts=101, already_normalised=False)


def gen_def():
    return case(seed=seeds(), n=st().integers(4000, 12000), tsamp=st().sampled_from([0.004, 0.0035, 0.0041]), given_=st().lists(st().sampled_from(sorted(DEFAULTS)), max_size=6, unique=True))


def run_def(c):
    import riptide
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    ts = riptide.TimeSeries(f32(rng.normal(size=c["n"]).cumsum() * 0.1 + rng.normal(size=c["n"])), c["tsamp"])
    a, pa = call(riptide.ffa_search, ts, **{k: DEFAULTS[k] for k in c["given_"]})
    b, pb = call(riptide.ffa_search, ts, **DEFAULTS)
    require(same(a.data, b.data) and same(pa.periods, pb.periods) and same(pa.snrs, pb.snrs) and same(pa.foldbins, pb.foldbins) and same(pa.widths, pb.widths),
            "an omitted parameter does not have its documented default")
    require(len(pb.periods) > 0, "nothing searched")
    return ["defaults"]


PROP = Prop("C09", [
    Sub("search", gen, run, 2500, 200000, "search parameters, data, metadata, de-reddening and normalisation on or off: returned data against float64 models, periodogram against the native periodogram of the returned data and the documented width trials and period cap; non-trivial: at least one trial, or a range above the cap", shards=(3, 6)),
    Sub("widths", gen_w, run_w, 1000, 20000, "width trial sequences against the documented recurrence; non-trivial: more than one width", shards=(1, 2)),
    Sub("defaults", gen_def, run_def, 30, 400, "omitted parameters are the documented defaults"),
], assumptions=["ducy_max < 1", "the data are not constant when normalised", "the running median window fits in the data"])
