import math, os
import numpy as np
from ..core import *


def peaks():
    s = st()
    return s.lists(case(dm=s.one_of(s.integers(0, 4).map(lambda v: v * 2.5), s.floats(0, 500)), snr=s.one_of(s.integers(6, 12).map(float), s.floats(6, 100)), eps=s.floats(-1e-3, 1e-3), width=s.integers(1, 30), ducy=s.floats(0.005, 0.5), iw=s.integers(0, 9), ip=s.integers(0, 10 ** 5)), min_size=1, max_size=12)


def gen():
    s = st()
    return case(peaks=peaks(), crowd=often(15, s.just(0), logint(13, 1000)), nper=logfloat(1.05, 80.0), bins=logint(2, 200), over=logfloat(1.02, 6.0), tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5]), data=seeds(), kind=s.sampled_from(["noise", "int", "walk"]),
                sub=s.one_of(s.none(), s.just(1), s.integers(2, 100), s.integers(2, 20)), meta=s.sampled_from(["full", "full", "bare", "no-dm", "no-name", "no-mjd", "no-coord", "galactic", "fk5"]), whole=often(4, s.just(False), s.just(True)), tight=often(3, s.just(False), s.just(True)), name=s.sampled_from(["J0534+2200", "", "x y"]), save=s.booleans(), default=s.booleans())


def crowd(c):
    rng = np.random.Generator(np.random.PCG64(c["data"]))
    return [dict(dm=float(rng.integers(0, 40)) * 2.5, snr=float(rng.integers(60, 160)) / 10, eps=float(rng.uniform(-1e-3, 1e-3)), width=int(rng.integers(1, 30)), ducy=float(rng.uniform(0.01, 0.5)), iw=int(rng.integers(0, 9)), ip=int(rng.integers(0, 10 ** 5))) for _ in range(c["crowd"])]


def build(c):
    """(time series, cluster, peaks, P, bins)"""
    import riptide
    from riptide.peak_detection import Peak
    from riptide.pipeline.peak_cluster import PeakCluster
    from astropy.coordinates import SkyCoord
    b, dt = c["bins"], c["tsamp"]
    P = b * c["over"] * dt
    N = int(math.ceil(c["nper"] * b * c["over"])) + 1
    if c["whole"]:      # a whole number of periods in the data, to rounding; sometimes with bins as long as samples
        m = max(1, int(c["nper"]))
        N = m * b if c["tight"] else int(m * b * c["over"])
        P = N * dt / m
    if N > 60000:
        raise Skip("too long")
    pk = []
    c = dict(c, peaks=c["peaks"] + crowd(c))
    best = max(range(len(c["peaks"])), key=lambda i: c["peaks"][i]["snr"])
    for i, p in enumerate(c["peaks"]):
        per = P * (1 + (p["eps"] if i != best else 0.0))
        pk.append(Peak(period=per, freq=1.0 / per, width=p["width"], ducy=p["ducy"], iw=p["iw"], ip=p["ip"], snr=p["snr"], dm=None if c["meta"] == "no-dm" else p["dm"]))
    x = make_array({"k": c["kind"], "n": N, "s": c["data"], "a": 3, "o": 0.0})
    meta = {"dm": pk[best].dm}
    if c["meta"] != "bare":
        coord = SkyCoord(184.5, -5.8, unit="deg", frame="galactic") if c["meta"] == "galactic" else SkyCoord(83.6, 22.0, unit="deg", frame="fk5" if c["meta"] == "fk5" else "icrs")
        full = dict(source_name=c["name"], skycoord=coord, mjd=59000.5, fname="x.inf")
        full.pop({"no-name": "source_name", "no-mjd": "mjd", "no-coord": "skycoord"}.get(c["meta"]), None)
        meta.update(full)
    ts = riptide.TimeSeries(f32(x), dt, metadata=meta)
    return ts, PeakCluster(iter(pk)), pk, best, P, b


def expected_fold(ts, P, b, k, m=None):
    """m: the number of periods if it is known to be a whole number"""
    T = ts.nsamp * ts.tsamp
    if m is not None and abs(m * P - T) < 1e-13 * T:
        return (None if k is None or k > m else k), k is not None and k > m
    if k is not None and abs(k * P - T) < 1e-9 * T:
        raise Skip("number of periods hinges on rounding")
    whole = k is None or k * P > T
    q = T / P
    if abs(q - round(q)) < 1e-9 * q:
        raise Skip("number of periods hinges on rounding")
    return (None if whole else k), whole and k is not None


def same_peaks(df, pk):
    cols = ("period", "freq", "dm", "width", "ducy", "snr")
    require(set(df.columns) == set(cols), f"peaks table has columns {list(df.columns)}")
    require(len(df) == len(pk), f"peaks table has {len(df)} rows for {len(pk)} peaks")
    num = lambda v: -1.0 if v is None or v != v else float(v)
    got = sorted(tuple(num(df[k].values[i]) for k in cols) for i in range(len(df)))
    exp = sorted(tuple(num(getattr(p, k)) for k in cols) for p in pk)
    require(got == exp, f"peaks table rows {got}, the peaks are {exp}")


def run(c):
    import riptide
    ts, cl, pk, best, P, b = build(c)
    require(len(cl) == len(pk) and all(a is z or a == z for a, z in zip(cl, pk)), "the cluster does not hold its peaks")
    top = max(p.snr for p in pk)
    require(cl.centre in pk and cl.centre.snr == top, f"cluster centre {cl.centre}, the best S/N is {top}")
    whole = max(1, int(c["nper"])) if c["whole"] else None
    k, clipped = expected_fold(ts, cl.centre.period, b, c["sub"], whole)
    if cl.centre.period != P:   # ties in S/N: the centre may be either
        if not ts.tsamp * b < cl.centre.period < ts.nsamp * ts.tsamp:
            raise Skip("tie with a period outside the domain of folding")
    keep = ts.data.copy()
    meta = dict(ts.metadata)
    if c["sub"] == 1 and c["default"]:
        cand = call(riptide.Candidate.from_pipeline_output, ts, cl, b)
    else:
        cand = call(riptide.Candidate.from_pipeline_output, ts, cl, b, subints=c["sub"])
    require(same(ts.data, keep) and dict(ts.metadata) == meta, "the time series was modified")
    # parameters of the brightest peak
    p = dict(cand.params)
    ok = [q for q in pk if q.snr == top and all(p.get(n) == getattr(q, n) for n in ("period", "freq", "dm", "width", "ducy", "snr"))]
    require(bool(ok) and set(p) == {"period", "freq", "dm", "width", "ducy", "snr"}, f"params {p}, the brightest peak is {pk[best]}")
    same_peaks(cand.peaks, pk)
    require(dict(cand.tsmeta) == meta, f"tsmeta {cand.tsmeta}, the time series has {meta}")
    # fold
    ref = call(ts.fold, p["period"], b, subints=k)
    require(np.shape(cand.subints) == ref.shape, f"subints of shape {np.shape(cand.subints)}, the fold has {ref.shape} (requested {c['sub']} with {ts.nsamp * ts.tsamp / p['period']} periods in the data)")
    check_close(cand.subints, ref, 1e-6 * np.abs(ref).max() if ref.size else 0.0, "subints")
    m = whole if whole and p["period"] == P else int(ts.nsamp * ts.tsamp / p["period"])
    rows = 1 if ref.ndim == 1 else ref.shape[0]
    require(rows == (m if k is None else k), f"{rows} subints, {m} whole periods, requested {c['sub']}")
    prof = ref if ref.ndim == 1 else ref.astype(float).sum(axis=0)
    got = np.asarray(call(lambda: cand.profile))
    check_close(got, prof, 1e-5 * (np.abs(ref).sum(axis=0) if ref.ndim == 2 else np.abs(ref)) + 1e-6 * np.abs(prof).max(), "profile")
    # DM curve
    dm, snr = call(lambda: cand.dm_curve)
    best_of = {}
    for q in (pk if c["meta"] != "no-dm" else []):       # without DMs, no curve
        best_of[q.dm] = max(best_of.get(q.dm, 0.0), q.snr)
    require(list(map(float, dm)) == sorted(best_of) and [float(v) for v in snr] == [best_of[d] for d in sorted(best_of)], f"DM curve {list(dm)}, {list(snr)}, expected {sorted(best_of.items())}")
    require(isinstance(call(str, cand), str), "no text")
    d = call(cand.to_dict)
    again = call(riptide.Candidate.from_dict, d)
    require(same(again.subints, cand.subints) and again.params == cand.params and again.peaks.equals(cand.peaks) and dict(again.tsmeta) == meta, "from_dict(to_dict) differs")
    if c["save"]:
        with scratch_dir() as d:
            call(riptide.save_json, os.path.join(d, "c.json"), cand)
            b2 = call(riptide.load_json, os.path.join(d, "c.json"))
        require(np.array_equal(b2.subints, cand.subints) and b2.params == cand.params and dict(b2.tsmeta).keys() == meta.keys(), "a candidate that was saved and loaded differs")
        same_peaks(b2.peaks, pk)
    return ["1d" if ref.ndim == 1 else "2d", "clipped" if clipped else "all" if c["sub"] is None else "as-requested", "whole-periods" if whole else "any-length", "ties" if sum(q.snr == top for q in pk) > 1 else "no-tie",
            "dms-%s" % ("one" if len(best_of) == 1 else "many"), "peaks-%s" % ("one" if len(pk) == 1 else "many")]


def run_plot(c):
    import riptide
    import matplotlib
    import matplotlib.pyplot as plt
    plt.switch_backend("Agg")
    ts, cl, pk, best, P, b = build(c)
    if cl.centre.period != P:
        raise Skip("tie")
    expected_fold(ts, P, b, c["sub"], max(1, int(c["nper"])) if c["whole"] else None)
    cand = call(riptide.Candidate.from_pipeline_output, ts, cl, b, subints=c["sub"])
    nfig = len(plt.get_fignums())
    with quiet():
        if c["save"]:
            with scratch_dir() as d:
                p = os.path.join(d, "c.png")
                call(cand.savefig, p)
                with open(p, "rb") as f:
                    require(f.read(8) == b"\x89PNG\r\n\x1a\n", "not a PNG file")
                img = matplotlib.image.imread(p)
            require(img.shape[:2] == (360, 1440), f"image of {img.shape[:2]} pixels, expected 360 x 1440")
            require(len(plt.get_fignums()) == nfig, "the figure is left open after saving")
            require(img[..., :3].std() > 0.01, "blank image")
            lab = "saved"
        else:
            try:
                fig = call(cand.plot, figsize=(9, 4), dpi=40)
                fig.canvas.draw()
                require(tuple(fig.get_size_inches()) == (9, 4) and fig.dpi == 40, "figure size or resolution not as requested")
                X = np.atleast_2d(cand.subints)
                images = [np.asarray(im.get_array()) for ax in fig.axes for im in ax.images]
                require(any(a.ndim == 2 and a.shape[0] == X.shape[0] and a.shape[1] >= b and np.allclose(a[:, :b], X, rtol=1e-5, atol=1e-6) and np.allclose(a[:, b:], X[:, :a.shape[1] - b], rtol=1e-5, atol=1e-6) for a in images),
                        f"no image of the {X.shape} subints in the plot")
                lines = [l for ax in fig.axes for l in ax.lines]
                dm, snr = cand.dm_curve
                curves = [] if c["meta"] == "no-dm" else [l for l in lines if len(l.get_xdata()) == len(dm) and np.allclose(l.get_xdata(), dm) and np.allclose(l.get_ydata(), snr)]
                require(c["meta"] == "no-dm" or bool(curves), "no DM curve in the plot")
                if c["meta"] != "no-dm":
                    lims = [(sorted(l.axes.get_xlim()), sorted(l.axes.get_ylim())) for l in curves]
                    require(any(x[0] <= min(dm) and max(dm) <= x[1] and y[0] <= min(snr) and max(snr) <= y[1] for x, y in lims), f"limits {lims} do not contain the DM curve")
                texts = [t.get_text() for ax in fig.axes for t in ax.texts]
                want = [f"{cand.params['period'] * 1000:.6f}", *([f"{cand.params['dm']:.2f}"] if c["meta"] != "no-dm" else []), f"{cand.params['snr']:.1f}", str(cand.params["width"]), f"{100 * cand.params['ducy']:.2f}"]
                for w in want:
                    require(w in texts, f"{w} is not in the table of the plot: {texts}")
                rows = {}       # what is written on each line of the table
                for ax in fig.axes:
                    for t in ax.texts:
                        rows.setdefault((id(ax), round(t.get_position()[1], 6)), []).append(t.get_text())
                for label, w in (("Period", want[0]), ("S/N", f"{cand.params['snr']:.1f}"), ("Width", str(cand.params["width"])), ("Duty cycle", want[-1]), ("DM", want[1] if len(want) == 5 else None)):
                    r = [v for v in rows.values() if label in v]
                    require(w is None or not r or any(w in v for v in r), f"{label} {w} is not what the table of the plot says: {r}")
                if c["meta"] not in ("bare", "no-name") and c["name"]:
                    require(c["name"] in texts, f"source name {c['name']} is not in the table of the plot: {texts}")
                if c["meta"] not in ("bare", "no-mjd"):
                    require("59000.500000" in texts and any(w.startswith("2020-05-31 12:00:00") for w in texts), f"date 59000.5 is not in the table of the plot: {texts}")
                if c["meta"] not in ("bare", "no-coord", "fk5"):
                    ic = ts.metadata["skycoord"].icrs
                    want = [ic.ra.to_string(unit="hour", sep=":", precision=2, pad=True), ic.dec.to_string(unit="deg", sep=":", precision=2, pad=True)]
                    require(all(w in texts for w in want), f"coordinates {want} are not in the table of the plot: {texts}")
                pr = cand.profile
                hs = [[r.get_height() for r in ax.patches if isinstance(r, matplotlib.patches.Rectangle)] for ax in fig.axes]
                require(any(len(h) >= b and np.allclose(np.diff(h[:b]), np.diff(pr), rtol=1e-3, atol=1e-4 * (1 + np.abs(pr).max())) for h in hs), "the profile is not in the plot")
                lab = "drawn"
            finally:
                plt.close("all")
    return [lab, "meta-" + c["meta"], "1d" if np.ndim(cand.subints) == 1 else "2d"]


def gen_plot():
    return gen().filter(lambda c: c["nper"] * c["bins"] * c["over"] < 20000)


PROP = Prop("C27", [
    Sub("candidate", gen, run, 700, 10000, "generated clusters and time series, subints from None to more than fit; all distinct cases are non-trivial", shards=(3, 8)),
    Sub("plot", gen_plot, run_plot, 48, 500, "the same candidates plotted or saved; all distinct cases are non-trivial", shards=(5, 8)),
], assumptions=["the fold itself is decided by C13; here only that it is the one requested", "number of periods within 1e-9 of an integer without being one is skipped"])
