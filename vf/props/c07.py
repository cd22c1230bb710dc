import numpy as np
from ..core import *
from .. import ref


def search_params(nmax, bmax_cap=250):
    """Valid (N, tsamp, bmin, bmax, period_min, period_max): periods in units of the sampling time."""
    s = st()

    def build(t):
        rows, extra, tsamp, bmin, db, u, v, snap = t
        N = max(4, min(nmax, bmin * rows + int(extra * bmin)))
        bmin = min(bmin, max(2, N // 2))
        bmax = bmin + db
        lo, hi = 1.0, max(1.0, N / bmin)                      # period_min / (tsamp bmin)
        a = lo if u <= 0 else float(lo * (hi / lo) ** u)
        if snap in (1, 3):
            a = max(1.0, float(np.floor(a)))
        pmin = (tsamp * bmin) * a
        pmax = pmin * float((N * tsamp / pmin) ** v) if N * tsamp > pmin else pmin
        if snap == 2:       # exact powers of the downsampling step, or boundaries of the base periods
            pmax = pmin * ((bmax + 1.0) / bmin) ** max(1, round(3 * v))
        if snap == 4:       # a little beyond a power of the downsampling step
            pmax = pmin * ((bmax + 1.0) / bmin) ** max(1, round(3 * v)) * (1 + 10.0 ** (-1 - 5 * u))
        if snap == 3:
            pmax = tsamp * max(1, round(pmax / tsamp))
        if not pmax > pmin:
            pmax = pmin * 1.01
        return {"N": N, "tsamp": tsamp, "bmin": bmin, "bmax": bmax, "pmin": float(pmin), "pmax": float(pmax)}
    return s.tuples(s.one_of(s.integers(3, 60), logint(1, 2000)) if nmax < 10 ** 5 else sizes(1000, 50000), s.one_of(s.just(0.0), finite(0, 1)), s.sampled_from([1.0, 1e-3, 6.4e-5, 0.25, 1 / 3, 7.0]),
                    s.one_of(logint(2, bmax_cap), s.integers(2, 12)), s.one_of(s.integers(0, 3), logint(0, 40)),
                    s.one_of(s.just(0.0), finite(0, 0.9), finite(0, 0.3)), s.one_of(finite(0.01, 1.0), finite(0.5, 1.0)),
                    s.sampled_from([0, 0, 0, 0, 1, 2, 3, 4])).map(build)


def gen():
    return case(p=search_params(6000), nw=st().integers(1, 3))


def gen_long():
    return case(p=search_params(1000000, 60).filter(lambda p: p["N"] * min(1.0, np.log(p["pmax"] / p["pmin"])) < 2e5), nw=st().just(1))


def search(data, c, widths=None, **kw):
    """Periodogram of exactly these data through the public function."""
    import riptide
    ts = riptide.TimeSeries.from_numpy_array(f32(data), c["tsamp"])
    kw = {**dict(fpmin=1, ducy_max=0.3, wtsp=1.5), **kw}
    return call(riptide.ffa_search, ts, period_min=c["pmin"], period_max=c["pmax"], bins_min=c["bmin"], bins_max=c["bmax"],
                deredden=False, already_normalised=True, **kw)[1]


def run(c):
    p = c["p"]
    N, tsamp, bmin, bmax = p["N"], p["tsamp"], p["bmin"], p["bmax"]
    pmax = min(p["pmax"], N * tsamp)
    x = np.zeros(N)
    if not p["pmin"] < pmax:
        return ["trivial"]
    try:
        entries = ref.grid(N, tsamp, p["pmin"], pmax, bmin, bmax)
    except ref.Ambiguous as e:
        raise Skip(str(e))
    pg = search(x, p)
    P, B, S = pg.periods, pg.foldbins, pg.snrs
    require(P.ndim == 1 and P.shape == B.shape and S.ndim == 2 and S.shape == (P.size, len(pg.widths)), f"shapes {P.shape} {B.shape} {S.shape} {len(pg.widths)}")
    require(P.dtype == np.float64 and S.dtype == np.float32 and B.dtype.kind in "ui", f"types {P.dtype} {B.dtype} {S.dtype}")
    m, complaint = ref.match_grid(entries, tsamp, P, B)
    require(m is not None, f"{complaint} [N={N} tsamp={tsamp!r} period_min={p['pmin']!r} period_max={pmax!r} bins {bmin}-{bmax}]")
    tight = sum(1 for e in entries if e[5] > e[4])
    if P.size:
        eps = 1e-11
        require(np.all(np.diff(P) > (-eps if tight else 0) * P[:-1]), "trial periods are not strictly increasing")
        require(abs(P[0] - p["pmin"]) <= eps * P[0] or N // bmin < 2 or entries[0][2] != bmin, f"first trial {P[0]!r}, period_min {p['pmin']!r}")
        require(P[-1] <= pmax * (1 + eps), f"last trial {P[-1]!r} beyond period_max {pmax!r}")
        require(B.min() >= bmin and B.max() <= bmax, "number of bins out of range")
        # no gap: between neighbours, the signal drifts by no more than one step of the transform over the whole data
        step = np.concatenate([np.full(cnt, N / f / b / (rows - 1.0)) for (f, n, b, rows, lo, hi), i, cnt in m])
        drift = (1 / P[:-1] - 1 / P[1:]) * N * tsamp * B[:-1]
        bad = np.flatnonzero(drift > step[:-1] * (1 + 1e-7) + 1e-7)
        require(bad.size == 0, "gap after trial {}", P[bad[0]] if bad.size else None)
    if not P.size:
        require(sum(e[4] for e in entries) == 0, "no trials")
    nds = len({e[0] for e in entries})
    lb = [f"ds={min(nds, 3)}", "f=1" if p["pmin"] == tsamp * bmin else "f>1"]
    if tight:
        lb.append("limit-on-a-trial")
    if bmin == bmax:
        lb.append("one-bins")
    if entries and entries[-1][3] < 4:
        lb.append("few-rows")
    if P.size < 2:
        lb.append("trivial")
    return lb


def gen_bad():
    s = st()
    return case(p=search_params(2000), how=s.sampled_from(["tsamp0", "tsamp<0", "pmin0", "pmin<0", "order", "equal", "bmin1", "bmin0", "bins", "fine", "nan"]), u=finite(0.0, 0.999), direct=s.booleans())


def run_bad(c):
    import riptide
    p = dict(c["p"])
    how, u = c["how"], c["u"]
    if how == "tsamp0":
        p["tsamp"] = 0.0
    elif how == "tsamp<0":
        p["tsamp"] = -p["tsamp"]
    elif how == "pmin0":
        p["pmin"] = 0.0
    elif how == "pmin<0":
        p["pmin"] = -p["pmin"]
    elif how == "order":
        p["pmax"] = p["pmin"] * u
    elif how == "equal":
        p["pmax"] = p["pmin"]
    elif how == "bmin1":
        p["bmin"] = 1
        p["bmax"] = max(1, p["bmax"])
    elif how == "bmin0":
        p["bmin"] = 0
    elif how == "bins":
        p["bmax"] = p["bmin"] - 1
    elif how == "fine":
        p["pmin"] = p["tsamp"] * p["bmin"] * (0.9999999 if u > 0.5 else 1e-3 + 0.9 * u)
    elif how == "nan":
        p["pmin"] = float("nan")
    x = np.zeros(p["N"], dtype=np.float32)
    if c["direct"] or how.startswith("tsamp"):
        from riptide import libcpp
        must_raise(ValueError, libcpp.periodogram, x, p["tsamp"], np.asarray([1] if u > 0.4 else [], dtype=np.uint64), p["pmin"], p["pmax"], p["bmin"], p["bmax"])
    else:
        ts = riptide.TimeSeries.from_numpy_array(x, p["tsamp"])
        must_raise(ValueError, riptide.ffa_search, ts, period_min=p["pmin"], period_max=p["pmax"], bins_min=p["bmin"], bins_max=p["bmax"],
                   fpmin=1, deredden=False, already_normalised=True)
    return [how]


PROP = Prop("C07", [
    Sub("grid", gen, run, 5000, 400000, "data lengths 4 to 6000, any sampling time, 2 to 160 bins, ranges from one trial to dozens of downsampling cycles, limits that coincide with trials; the trials must be exactly those of an independent enumeration of the grid, increasing, without gaps; non-trivial: at least two trials", shards=(3, 7)),
    Sub("long", gen_long, run, 300, 10000, "the same with up to a million samples", shards=(1, 4)),
    Sub("bad", gen_bad, run_bad, 300, 3000, "each invalid argument in turn must raise ValueError, through ffa_search and the native function"),
], assumptions=["trials that equal a range limit to within 1e-12 relative may be in or out", "every downsampling factor is below the data length"])
