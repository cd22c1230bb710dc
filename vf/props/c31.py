"""Views of a periodogram: frequencies, duration, plots."""
import numpy as np
from ..core import *


def gen():
    s = st()
    return case(n=often(8, s.one_of(s.integers(1, 5), logint(1, 1500)), sizes(1500, 70000)), nw=s.integers(1, 6), seed=seeds(), kind=s.sampled_from(["noise", "int", "negative", "ramp"]), p0=logfloat(1e-4, 100.0), span=logfloat(1.01, 50.0), iw=s.one_of(s.none(), s.integers(0, 5)), T=logfloat(1.0, 1e5), real=s.booleans(), display=s.booleans(), w=s.integers(3, 20), h=s.integers(2, 6), dpi=s.sampled_from([40, 72, 100]), other=s.booleans())


def build(c):
    import riptide
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    if c["real"]:
        n = 300 + min(c["n"], 1500)
        ts = riptide.TimeSeries(f32(rng.normal(size=n)), 1e-3, metadata={"dm": 1.0})
        return call(riptide.ffa_search, ts, period_min=0.0201, period_max=0.0201 * (1 + c["span"] / 10), bins_min=20, bins_max=23, fpmin=1, deredden=False, ducy_max=0.3)[1], ts.length
    n, nw = c["n"], c["nw"]
    p = np.sort(c["p0"] * c["span"] ** rng.random(n))
    s = {"noise": lambda: rng.normal(size=(n, nw)) * 3, "int": lambda: rng.integers(-5, 6, size=(n, nw)), "negative": lambda: -1 - 10 * rng.random((n, nw)), "ramp": lambda: np.arange(n * nw).reshape(n, nw)}[c["kind"]]()
    w = np.cumsum(rng.integers(1, 9, size=nw))
    return riptide.Periodogram(w, p, rng.integers(20, 40, size=n).astype(np.uint32), s.astype(np.float32), metadata=riptide.Metadata({"tobs": c["T"]})), c["T"]


def run(c):
    import matplotlib.pyplot as plt
    plt.switch_backend("Agg")
    pg, T = build(c)
    keep = [np.array(a, copy=True) for a in (pg.widths, pg.periods, pg.foldbins, pg.snrs)]
    n, nw = pg.snrs.shape
    require(n > 0, "no trials")
    f = call(lambda: pg.freqs)
    require(np.shape(f) == (n,) and np.all(np.abs(f * pg.periods - 1) <= 1e-14), "freqs are not the inverse of the periods")
    require(call(lambda: pg.tobs) == T, f"tobs is {pg.tobs}, the data last {T}")
    iw = None if c["iw"] is None else c["iw"] % nw
    y = np.array([max(float(v) for v in row) for row in pg.snrs]) if iw is None else pg.snrs[:, iw].astype(float)
    plt.close("all")
    try:
        with quiet():
            if c["display"]:
                call(pg.display, iwidth=iw, figsize=(c["w"], c["h"]), dpi=c["dpi"])
            else:
                fig = plt.figure(figsize=(c["w"], c["h"]), dpi=c["dpi"])
                if c["other"]:
                    plt.subplot(1, 2, 2)
                call(pg.plot, **({} if iw is None else {"iwidth": iw}))
            require(len(plt.get_fignums()) == 1, f"{len(plt.get_fignums())} figures")
            fig = plt.gcf()
            fig.canvas.draw()
        require(tuple(fig.get_size_inches()) == (c["w"], c["h"]) and fig.dpi == c["dpi"], "size or resolution of the figure")
        require(len(fig.axes) == 1, "not drawn in the current axes")
        ax = fig.axes[0]
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
        lines += [(np.asarray(q.get_offsets())[:, 0], np.asarray(q.get_offsets())[:, 1]) for q in ax.collections if hasattr(q, "get_offsets")]
        o = np.argsort(pg.periods, kind="stable")
        pairs = sorted(zip(map(float, pg.periods), map(float, y)))

        def shows(a, b):
            if len(a) != n:
                return False
            q = sorted(zip(map(float, a), map(float, b)))
            return np.allclose(np.array(q), np.array(pairs), rtol=1e-6, atol=0)
        require(any(shows(a, b) for a, b in lines), f"no curve of {'the best S/N' if iw is None else f'the S/N of width index {iw}'} versus period among {len(lines)} curves")
        lo, hi = sorted(ax.get_xlim())
        pmin, pmax = float(min(pg.periods)), float(max(pg.periods))
        require(lo <= pmin * (1 + 1e-12) and hi >= pmax * (1 - 1e-12), f"the plot covers periods {lo} to {hi}, the trials {pmin} to {pmax}")
        lo, hi = sorted(ax.get_ylim())
        require(lo <= y.min() and hi >= y.max(), f"the plot covers S/N {lo} to {hi}, the data {y.min()} to {y.max()}")
        if iw is not None:
            import re
            nums = re.findall(r"\d+", " ".join([ax.get_title(), ax.get_ylabel(), *(t.get_text() for t in ax.texts)]))
            require(str(int(pg.widths[iw])) in nums, f"the width {pg.widths[iw]} is not in the title {ax.get_title()!r}")
    finally:
        plt.close("all")
    require(all(same(a, b) for a, b in zip(keep, (pg.widths, pg.periods, pg.foldbins, pg.snrs))), "the periodogram was modified")
    return ["best" if iw is None else "one-width", "display" if c["display"] else "plot", "real" if c["real"] else "synthetic"] + (["trivial"] if n < 2 else [])


PROP = Prop("C31", [
    Sub("views", gen, run, 700, 8000, "periodograms of searches and synthetic ones, plotted for one width or the best of all; non-trivial with at least two trials", shards=(8, 8)),
], assumptions=["matplotlib's Agg backend"])
