import copy, math, os
from fractions import Fraction
import numpy as np
from ..core import *
from .. import ref
from . import c18, c19, c20

COLS = ("period", "freq", "dm", "width", "ducy", "snr")


# ---------------------------------------------------------------- generators

def sources():
    s = st()
    member = case(frac=s.one_of(s.just([1, 1]), s.tuples(s.integers(1, 8), s.integers(1, 8)).map(list)), off=s.one_of(s.just(0.0), s.floats(-1.5, 1.5), s.floats(-20, 20)), dm=s.integers(0, 9),
                  snr=s.one_of(s.just("match"), s.just("match"), s.integers(6, 14).map(float), s.floats(6.0, 80.0)), dsnr=s.floats(-5, 5), ducy=s.one_of(s.just(None), s.floats(0.01, 0.4)), iw=s.integers(0, 8), n=s.integers(1, 3))
    one = case(u=finite(0, 1), snr=s.one_of(s.floats(8.0, 200.0), s.integers(8, 20).map(float)), ducy=s.floats(0.01, 0.3), members=s.one_of(s.lists(member, min_size=1, max_size=3), s.lists(member, min_size=3, max_size=8)))
    some = s.lists(one, min_size=1, max_size=6)
    return often(12, some, s.just([]))


def gen():
    s = st()
    return case(src=sources(), dms=s.lists(s.sampled_from([0.0, 1.5, 3.25, 10.0, 10.5, 47.125, 300.0]), min_size=1, max_size=4, unique=True), nsamps=s.lists(s.integers(0, 300), min_size=7, max_size=7), tsamp=s.sampled_from([1e-3, 2.56e-4, 0.01, 1.0]),
                fmt=s.sampled_from(["presto", "presto", "sigproc"]), bmin=s.integers(6, 40), grow=s.one_of(s.lists(s.floats(1.2, 3.0), min_size=1, max_size=3), s.lists(s.floats(2.0, 3.0), min_size=3, max_size=3)), cand=s.lists(s.integers(2, 40), min_size=3, max_size=3), sub=s.lists(s.one_of(s.none(), s.integers(1, 40)), min_size=3, max_size=3),
                radius=s.one_of(s.just(0.2), logfloat(0.01, 5.0)), hf=case(denom_max=s.one_of(s.just(100), s.integers(1, 20)), phase_distance_max=logfloat(0.3, 5.0), dm_distance_max=logfloat(0.5, 1000.0), snr_distance_max=logfloat(0.5, 10.0)),
                filters=case(dm_min=s.one_of(s.none(), s.none(), s.sampled_from([0, 1.5, 10.0, 10.2, -3, 301])), snr_min=s.one_of(s.none(), s.none(), s.integers(6, 15), s.floats(5.0, 60.0)), remove_harmonics=s.one_of(s.none(), s.booleans()),
                             max_number=s.one_of(s.none(), s.integers(1, 6), s.just(1000))), procs=s.integers(1, 3), twins=often(3, s.just(False), s.just(True)), crowd=often(50, s.just(0), s.integers(60, 300)), edge=often(5, s.just(False), s.just(True)), bare=often(2, s.just(False), s.just(True)), band=s.floats(0.02, 0.6), fbot=logfloat(200.0, 4000.0), seed=seeds(), plot=s.sampled_from([False] * 30 + [True]))


def gen_related():
    """Families in which most members are related, and filters that make it matter."""
    s = st()
    filters = case(dm_min=often(5, s.none(), s.just(1.5)), snr_min=often(5, s.none(), s.integers(6, 15)), remove_harmonics=often(5, s.just(True), s.just(False)), max_number=often(4, s.integers(1, 5), s.none()))

    def related(t):
        c, f, grow, loose = t
        src = [{**o, "members": [{**m, "off": 0.0, "dm": 0, "snr": "match", "dsnr": m["dsnr"] / 2, "ducy": None, "n": 1, "frac": [1, 1] if i == 0 else m["frac"]} for i, m in enumerate(o["members"])]} for o in c["src"]]
        return {**c, "src": src, "filters": f, "grow": grow, "hf": {"denom_max": 100, "phase_distance_max": 3.0, "dm_distance_max": 1000.0, "snr_distance_max": 10.0} if loose else c["hf"], "crowd": 0}
    return s.tuples(gen(), filters, s.lists(s.floats(2.0, 3.0), min_size=2, max_size=3), often(4, s.just(True), s.just(False))).map(related)


def setting(c):
    """-> (ranges, tsamp, lengths per DM)"""
    t = c["tsamp"]
    edges = [t * c["bmin"] * (1.0 if c["edge"] else 1.0009)]
    for g in c["grow"]:
        edges.append(edges[-1] * g)
    rg = []
    for i in range(len(c["grow"])):
        k = min(c["cand"][i], int(edges[i] / t / 1.0005))
        if c["edge"] and i == 0:
            k = c["bmin"]
        rg.append({"name": f"r{i}", "ffa_search": {"period_min": edges[i], "period_max": edges[i + 1], "bins_min": c["bmin"], "bins_max": c["bmin"] + 3}, "find_peaks": {},
                   "candidates": {"bins": max(2, k), "subints": c["sub"][i]}})
    n0 = int(math.ceil(edges[-1] * 1.5 / t)) + 2
    return rg, t, [n0 + v * (1 + n0 // 40) for v in c["nsamps"]]


def build_peaks(c, rg, T, dms, kdisp):
    """Peaks inside the searched range: families of related frequencies, at several DMs."""
    from riptide.peak_detection import Peak
    lo, hi = rg[0]["ffa_search"]["period_min"], rg[-1]["ffa_search"]["period_max"] * 1.01
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    out = []
    for s in c["src"]:
        P0 = lo * (hi / lo) ** (0.02 + 0.96 * s["u"])
        for m in s["members"]:
            p, q = m["frac"]
            if not lo * 1.01 <= q * P0 / p <= hi * 0.99:
                p, q = q, p
            if not lo * 1.01 <= q * P0 / p <= hi * 0.99:
                p = q = 1
            f = p / (q * P0)
            duc = m["ducy"] or s["ducy"]
            snr = max(6.0, s["snr"] / math.sqrt(p * q) + m["dsnr"]) if m["snr"] == "match" else m["snr"]
            if m["snr"] == "match" and p == q:
                snr = s["snr"]
            if c["edge"] and s is c["src"][0] and m is s["members"][0]:     # at the shortest period of the search, where the bins are as long as the samples
                out.append(Peak(period=lo, freq=1.0 / lo, width=1 + m["iw"], ducy=duc, iw=m["iw"], ip=0, snr=max(6.0, snr), dm=dms[m["dm"] % len(dms)]))
            for k in range(m["n"]):   # the same signal at neighbouring DM trials, and in neighbouring frequency trials
                fk = f + (m["off"] + (rng.normal() * 0.3 if k else 0.0)) * c["radius"] / T
                per = 1.0 / fk
                if not lo <= per <= hi:
                    continue
                dm = dms[(m["dm"] + k) % len(dms)]
                sn = snr if k == 0 else max(6.0, snr - float(rng.integers(0, 4)))
                out.append(Peak(period=per, freq=fk, width=1 + m["iw"], ducy=duc, iw=m["iw"], ip=int(rng.integers(0, 10 ** 6)), snr=sn, dm=dm))
    first = len(out)
    for _ in range(c["crowd"]):     # many candidates, some of them related to an earlier one
        per = float(lo * (hi / lo) ** rng.uniform(0.01, 0.99))
        if len(out) > first and rng.random() < 0.4:
            o = out[int(rng.integers(first, len(out)))]
            a, b = (int(v) for v in rng.integers(1, 7, 2))
            if lo * 1.01 < o.period * a / b < hi * 0.99 and a != b:
                per = o.period * a / b
                out.append(Peak(period=per, freq=1.0 / per, width=o.width, ducy=o.ducy, iw=0, ip=0, snr=max(6.0, float(o.snr / math.sqrt(a * b // math.gcd(a, b) ** 2) + rng.uniform(-1, 1))), dm=o.dm))
                continue
        out.append(Peak(period=per, freq=1.0 / per, width=int(rng.integers(1, 9)), ducy=float(rng.uniform(0.01, 0.3)), iw=0, ip=0, snr=float(rng.integers(60, 300)) / 10, dm=dms[int(rng.integers(0, len(dms)))]))
    return sorted(out, key=lambda p: p.period)


def model_htest(F, H, T, fmin, fmax, kw):
    """-> (related, H/F fraction); Skip if it hinges on rounding"""
    slow, fast = (F, H) if F.freq <= H.freq else (H, F)
    x, q = fast.freq / slow.freq, np.arange(1.0, kw["denom_max"] + 1)
    if np.abs(x - np.round(x * q) / q).min() * slow.freq * T > fast.ducy * kw["phase_distance_max"] * 1.001 + 1e-12 * fast.freq * T:
        return False, None          # clearly, whichever fraction is the closest
    fr, tie = c20.closest(x, kw["denom_max"])
    if tie:
        raise Skip("two fractions are equally close")
    turns = float(abs(fr * Fraction(slow.freq) - Fraction(fast.freq)) * Fraction(T))
    frac = fr if fast is H else 1 / fr
    d = [turns / fast.ducy, abs(F.dm - H.dm) * c20.KDM * (fmin ** -2 - fmax ** -2) / min(F.ducy / F.freq, H.ducy / H.freq), abs(H.snr - F.snr / math.sqrt(frac.numerator * frac.denominator))]
    e = [8 * 2.3e-16 * fast.freq * T / fast.ducy, 1e-12, 1e-9 * max(F.snr, H.snr)]
    thr = [kw["phase_distance_max"], kw["dm_distance_max"], kw["snr_distance_max"]]
    if any(abs(a - b) <= x + 1e-9 * a for a, b, x in zip(d, thr, e)):
        raise Skip("harmonic test hinges on rounding")
    return all(a < b for a, b in zip(d, thr)), frac


# ---------------------------------------------------------------- the stages

def run(c):
    from riptide.pipeline import Pipeline
    rg, t, lens = setting(c)
    conf = c19.conf_of(copy.deepcopy(rg), c["fmt"])
    conf["processes"] = c["procs"]
    conf["clustering"]["radius"] = c["radius"]
    conf["harmonic_flagging"] = dict(c["hf"])
    conf["candidate_filters"] = dict(c["filters"])
    conf["plot_candidates"] = c["plot"]
    minlen = min(lens[:len(c["dms"])])
    conf["dereddening"] = {"rmed_width": t * (2 * int(0.2 * (minlen - 2)) + 1), "rmed_minpts": 5}
    nch = 64
    cbw = c["fbot"] * c["band"] / nch
    fmin, fmax = c["fbot"], c["fbot"] + nch * cbw
    if c["fmt"] == "sigproc":
        conf["data"].update(fmin=fmin, fmax=fmax, nchans=nch)
    with scratch_dir() as d:
        files, tobs = {}, []
        for i, dm in enumerate(c["dms"]):
            x = make_array({"k": "noise", "n": lens[i], "s": c["seed"] ^ i, "a": 1.0})
            tobs.append(lens[i] * t)
            where, name = d, f"f{i}"
            if c["twins"]:      # files with the same name, in a directory each
                where, name = os.path.join(d, f"trial{i}"), "f"
                os.mkdir(where)
            files[dm] = c18.write_presto(where, name, dm, t, fbot=c["fbot"], nchan=nch, cbw=cbw, x=x) if c["fmt"] == "presto" else c18.write_sigproc(where, name, dm, t, x=x, bare=c["bare"])
        T = float(np.median(tobs))
        pl = call(Pipeline, conf)
        call(pl.prepare, list(files.values()))
        peaks = build_peaks(c, rg, T, c["dms"], None)
        pl.peaks = list(peaks)
        out = os.path.join(d, "out")
        os.mkdir(out)
        lab = []
        lab += check_clusters(pl, peaks, c["radius"] / T)
        lab += check_flags(pl, T, fmin, fmax, c["hf"])
        lab += check_filters(pl, c["filters"])
        lab += check_candidates(pl, conf, rg, files)
        with quiet():
            call(pl.save_products, outdir=out)
        check_files(pl, peaks, out, c["plot"])
        return lab + ([] if len(peaks) > 1 else ["trivial"])


def check_clusters(pl, peaks, r):
    call(pl.cluster_peaks)
    if not peaks:
        require(not pl.clusters, "clusters without peaks")
        return ["no-peaks"]
    f = sorted(p.freq for p in peaks)
    if any(abs((b - a) - r) <= 1e-12 * b for a, b in zip(f, f[1:])):
        raise Skip("distance equals the clustering radius to rounding")
    exp = ref.friends([p.freq for p in peaks], r)
    key = lambda p: tuple(p)
    got = sorted(sorted(map(key, cl)) for cl in pl.clusters)
    want = sorted(sorted(key(peaks[i]) for i in g) for g in exp)
    require(got == want, f"clusters of sizes {sorted(map(len, got))}, expected {sorted(map(len, want))} for radius {r}")
    for cl in pl.clusters:
        require(cl.centre in cl and cl.centre.snr == max(p.snr for p in cl), f"centre {cl.centre} of {list(cl)}")
    return ["clusters=%d" % min(len(exp), 4)]


def check_flags(pl, T, fmin, fmax, kw):
    call(pl.flag_harmonics)
    if not pl.clusters:
        return []
    n = len(pl.clusters)
    require(sorted(cl.rank for cl in pl.clusters) == list(range(n)), f"ranks {[cl.rank for cl in pl.clusters]}")
    order = sorted(pl.clusters, key=lambda cl: cl.rank)
    snr = [cl.centre.snr for cl in order]
    require(all(a >= b for a, b in zip(snr, snr[1:])), f"S/N by rank {snr}")
    parent, frac = [None] * n, [None] * n
    for h in range(n):
        for f in range(h):
            if parent[f] is None:
                rel, fr = model_htest(order[f].centre, order[h].centre, T, fmin, fmax, kw)
                if rel:
                    parent[h], frac[h] = f, fr
                    break
    for h, cl in enumerate(order):
        exp = None if parent[h] is None else order[parent[h]]
        require(cl.is_harmonic == (exp is not None), f"cluster of rank {h} is {'' if cl.is_harmonic else 'not '}flagged as a harmonic; the test relates it to rank {parent[h]} (centre {cl.centre})")
        require(cl.parent_fundamental is exp, f"cluster of rank {h} is flagged as a harmonic of rank {getattr(cl.parent_fundamental, 'rank', None)}, expected {parent[h]}")
        if exp is not None:
            require(cl.hfrac == frac[h], f"cluster of rank {h}: fraction {cl.hfrac}, expected {frac[h]}")
    return ["harmonics" if any(p is not None for p in parent) else "no-harmonics", "snr-ties" if len(set(snr)) < n else "no-ties"]


def check_filters(pl, q):
    call(pl.apply_candidate_filters)
    keep = [cl for cl in pl.clusters if (q["dm_min"] is None or cl.centre.dm >= q["dm_min"]) and (q["snr_min"] is None or cl.centre.snr >= q["snr_min"])
            and not (q["remove_harmonics"] and cl.is_harmonic)]
    got = pl.clusters_filtered
    ids = [id(cl) for cl in got]
    require(len(set(ids)) == len(ids), "a cluster is selected twice")
    bad = set(ids) - {id(cl) for cl in keep}
    require(not bad, f"selected in spite of the filters {q}: {[cl.centre for cl in got if id(cl) in bad]}")
    n = len(keep) if q["max_number"] is None else min(len(keep), q["max_number"])
    require(len(got) == n, f"{len(got)} clusters selected, {len(keep)} pass the filters, at most {q['max_number']} wanted")
    require(sorted(cl.centre.snr for cl in got) == sorted((cl.centre.snr for cl in keep), reverse=True)[:n][::-1], "the selected clusters are not the brightest")
    return ["filtered=%d" % min(n, 3), "capped" if n < len(keep) else "uncapped", "cut" if len(keep) < len(pl.clusters) else "uncut"]


def expected_range(rg, period):
    if period < rg[0]["ffa_search"]["period_min"]:
        return rg[0]
    for r in rg:
        if period < r["ffa_search"]["period_max"]:
            return r
    return rg[-1]


def check_candidates(pl, conf, rg, files, build=True):
    import riptide
    loader = riptide.TimeSeries.from_presto_inf if conf["data"]["format"] == "presto" else riptide.TimeSeries.from_sigproc
    if build:
        call(pl.build_candidates)
    cands = pl.candidates
    require(len(cands) == len(pl.clusters_filtered), f"{len(cands)} candidates, {len(pl.clusters_filtered)} clusters selected")
    sn = [k.params["snr"] for k in cands]
    require(all(a >= b for a, b in zip(sn, sn[1:])), f"candidates not by decreasing S/N: {sn}")
    left = list(pl.clusters_filtered)
    series = {}
    lab = []
    for k in cands:
        m = [cl for cl in left if all(k.params[a] == getattr(cl.centre, a) for a in COLS)
             and sorted(tuple(float(v) for v in row) for row in k.peaks[list(COLS)].values) == sorted(tuple(float(getattr(p, a)) for a in COLS) for p in cl)]
        require(bool(m), f"candidate {k.params} with {len(k.peaks)} peaks matches no remaining selected cluster")
        cl = m[0]
        left = [x for x in left if x is not cl]
        dm, P = cl.centre.dm, cl.centre.period
        if dm not in series:
            ts = loader(files[dm]).deredden(conf["dereddening"]["rmed_width"], minpts=conf["dereddening"]["rmed_minpts"]).normalise()
            series[dm] = ts
        ts = series[dm]
        require(k.tsmeta["dm"] == dm and os.path.realpath(k.tsmeta["fname"]) == os.path.realpath(files[dm]), f"candidate at DM {dm} built from {k.tsmeta['fname']} (DM {k.tsmeta['dm']})")
        r = expected_range(rg, P)
        b, want = r["candidates"]["bins"], r["candidates"]["subints"]
        q = ts.length / P
        if want is not None and abs(want - q) < 1e-9 * q or abs(q - round(q)) < 1e-9 * q:
            continue
        if want is not None and want > q:
            want = None
            lab.append("subints-clipped")
        exp = call(ts.fold, P, b, subints=want)
        require(np.shape(k.subints) == exp.shape, f"subints of shape {np.shape(k.subints)} at period {P!r} in range {r}, expected {exp.shape}")
        check_close(k.subints, exp, 1e-5 * np.abs(exp).max(), f"folded candidate at period {P!r}")
        lab.append("range-%s" % ("first" if r is rg[0] else "last" if r is rg[-1] else "middle"))
    return lab


def near9(a, b):
    return abs(float(a) - float(b)) <= 0.51e-9 + 1e-12 * abs(float(b))


def check_files(pl, peaks, out, plot):
    import pandas, riptide
    have = sorted(os.listdir(out))
    if not peaks:
        require(have == [], f"files {have} without peaks")
        return
    n = len(pl.candidates)
    want = ["peaks.csv", "clusters.csv"] + (["candidates.csv"] if n else []) + [f"candidate_{i:04d}.json" for i in range(n)] + ([f"candidate_{i:04d}.png" for i in range(n)] if plot else [])
    require(have == sorted(want), f"output files {have}, expected {sorted(want)}")

    def table(name, columns, rows, exact_order):
        df = pandas.read_csv(os.path.join(out, name))
        require(set(df.columns) == set(columns), f"{name}: columns {list(df.columns)}")
        require(len(df) == len(rows), f"{name}: {len(df)} rows, expected {len(rows)}")
        got = [tuple(float(df[k].values[i]) for k in columns) for i in range(len(df))]
        exp = [tuple(float(r[k]) for k in columns) for r in rows]
        if not exact_order:
            got, exp = sorted(got), sorted(tuple(round(v, 9) for v in r) for r in exp)
        for g, e in zip(got, exp):
            require(all(near9(a, b) for a, b in zip(g, e)), f"{name}: row {g}, expected {e}")
        return df
    pk = [{k: getattr(p, k) for k in COLS} for p in peaks]
    df = table("peaks.csv", COLS, pk, False)
    require(bool(np.all(np.diff(df["period"].values) >= -1e-9)), "peaks.csv is not by period")
    order = sorted(pl.clusters, key=lambda cl: cl.rank)
    rows = []
    for cl in order:
        e = cl.centre
        rows.append({"rank": cl.rank, "period": e.period, "dm": e.dm, "snr": e.snr, "ducy": e.ducy, "freq": e.freq, "npeaks": len(cl), "hfrac_num": cl.hfrac.numerator if cl.is_harmonic else 0,
                     "hfrac_denom": cl.hfrac.denominator if cl.is_harmonic else 0, "fundamental_rank": cl.parent_fundamental.rank if cl.is_harmonic else cl.rank})
    ties = len({cl.centre.snr for cl in order}) < len(order)
    df = table("clusters.csv", tuple(rows[0]), rows, not ties)
    require(bool(np.all(np.diff(df["snr"].values) <= 1e-9)), "clusters.csv is not by decreasing S/N")
    if n:
        table("candidates.csv", COLS, [k.params for k in pl.candidates], True)
    for i, k in enumerate(pl.candidates):
        q = riptide.load_json(os.path.join(out, f"candidate_{i:04d}.json"))
        require(type(q) is riptide.Candidate and q.params == k.params and same(q.subints, k.subints) and len(q.peaks) == len(k.peaks)
                and np.allclose(q.peaks[list(COLS)].values.astype(float), k.peaks[list(COLS)].values.astype(float), rtol=1e-12)
                and q.tsmeta["dm"] == k.tsmeta["dm"], f"candidate_{i:04d}.json is not candidate {i}")
        if plot:
            with open(os.path.join(out, f"candidate_{i:04d}.png"), "rb") as f:
                require(f.read(8) == b"\x89PNG\r\n\x1a\n", "not a PNG file")


# ---------------------------------------------------------------- search range of a period

def gen_range():
    s = st()
    return case(start=logfloat(1e-3, 10.0), grow=s.lists(s.floats(1.001, 20.0), min_size=1, max_size=6), at=s.lists(s.tuples(s.sampled_from(["in", "in", "edge", "below-edge", "above-edge", "under", "over"]), s.integers(0, 10), finite(0, 1)).map(list), min_size=1, max_size=12), perm=seeds())


def run_range(c):
    from riptide.pipeline import Pipeline
    edges = [c["start"]]
    for g in c["grow"]:
        edges.append(edges[-1] * g)
    n = len(c["grow"])
    rg = [{"name": f"r{i}", "ffa_search": {"period_min": edges[i], "period_max": edges[i + 1], "bins_min": 10 + i, "bins_max": 20 + i}, "find_peaks": {}, "candidates": {"bins": 5 + i, "subints": [None, 3 + i][i % 2]}} for i in range(n)]
    pl = call(Pipeline, c19.conf_of(copy.deepcopy(rg)))
    for how, i, u in c["at"]:
        i %= n + 1
        p = {"in": edges[0] + u * (edges[-1] - edges[0]), "edge": edges[i], "below-edge": float(np.nextafter(edges[i], 0)), "above-edge": float(np.nextafter(edges[i], np.inf)), "under": edges[0] * u, "over": edges[-1] * (1 + u)}[how]
        if p <= 0:
            continue
        with quiet():
            got = call(pl.get_search_range, p)
        e = expected_range(rg, p)
        require(got["name"] == e["name"] and got["candidates"] == e["candidates"] and got["ffa_search"]["period_min"] == e["ffa_search"]["period_min"], f"period {p!r}: range {got}, expected {e}; edges {edges}")
    w = min(r["ffa_search"]["period_min"] / r["ffa_search"]["bins_min"] for r in rg)
    require(abs(call(pl.wmin) - w) <= 1e-12 * w, f"smallest pulse width {pl.wmin()!r}, expected {w!r}")
    return ["n=%d" % min(n, 3)] + (["trivial"] if n == 1 else [])


PROP = Prop("C21", [
    Sub("stages", gen, run, 1000, 14000, "generated families of related peaks at several DMs taken through clustering, flagging, filtering, candidate building and saving; non-trivial with at least two peaks", shards=(7, 8)),
    Sub("related", gen_related, run, 500, 6000, "the same for families whose members are mostly harmonics of the first one at the same DM, with harmonic removal and a maximum number in most cases; non-trivial with at least two peaks", shards=(4, 8)),
    Sub("ranges", gen_range, run_range, 800, 8000, "contiguous search ranges and periods inside, at and next to their limits; non-trivial with several ranges"),
], assumptions=["a distance, S/N or number of periods that equals a threshold to rounding is skipped (counted)", "the fold is decided by C13, the harmonic test by C20: here which clusters and parameters they are applied to"])
