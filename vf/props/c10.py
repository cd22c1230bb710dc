import math
import numpy as np
from ..core import *
from .. import ref


def pulse(ducy):
    kappa = math.log(2.0) / (2.0 * math.sin(math.pi * ducy / 2.0) ** 2)
    return lambda phase: np.exp(kappa * (np.cos(2 * np.pi * phase) - 1.0))


def signal(N, P, ducy, phi, A):
    s = pulse(ducy)(np.arange(N) / P - phi)
    return s * (A / math.sqrt((s ** 2).sum()))


def ideal(N, P, ducy, A, f, b, widths, M=64):
    """Least and largest S/N of the exact fold at the true period into b bins, over the phases of the pulse in its bin."""
    g = pulse(ducy)
    s = g((np.arange(b * M) + 0.5) / (b * M) - 0.5)
    full = g(np.arange(N) / P - 0.5)
    s *= A / math.sqrt((full ** 2).sum())
    m = int(N / f) // b
    r = []
    for off in range(0, M, 8):
        prof = np.roll(s, off).reshape(b, M).mean(axis=1) * f * m
        r.append(ref.boxcar_snr(prof[None], widths, math.sqrt(m * ref.mean_variance(N, f)))[0].max())
    return min(r), max(r)


def gen():
    s = st()
    return case(bmin=logint(16, 250), dbins=finite(0.0, 0.25), f=logfloat(1.0, 12.0), width=finite(1.05, 2.0), where=finite(0.02, 0.98), m=finite(10.0, 150.0),
                ducy=finite(0.0, 1.0), phi=finite(0.0, 1.0), tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5, 0.0128]), seed=seeds(), amp=finite(18.0, 40.0))


def setup(c, nmax):
    bmin = c["bmin"]
    bmax = bmin + 1 + int(c["dbins"] * bmin)
    f = c["f"]
    while bmin * f * c["m"] * c["width"] > nmax:
        if f > 1.2:
            f = max(1.0, f / 2)
        elif c["m"] * bmin * c["width"] > nmax:
            raise Skip("too long")
        else:
            break
    dt = c["tsamp"]
    pmin = (dt * bmin) * f
    pmax = pmin * c["width"]
    P = pmin + c["where"] * (pmax - pmin)
    N = int(c["m"] * P / dt)
    dlo = 3.0 / bmin
    ducy = dlo * (0.25 / dlo) ** c["ducy"]
    return bmin, bmax, dt, pmin, pmax, P, N, ducy


def bounds(pg, i, N, dt, P, ducy, A, pmin, pmax, bmin, bmax):
    """Least S/N of the exact fold as binned by the nearest trial, largest one as binned by trial i."""
    near = int(np.abs(1 / pg.periods - 1 / P).argmin())
    return exact(pg, near, N, dt, P, ducy, A, pmin, bmin, bmax)[0], exact(pg, i, N, dt, P, ducy, A, pmin, bmin, bmax)[1]


def exact(pg, i, N, dt, P, ducy, A, pmin, bmin, bmax):
    # downsampling factor of the trial: the largest of the cycle that does not exceed its bin width
    b = int(pg.foldbins[i])
    geo = (bmax + 1.0) / bmin
    k = math.floor(math.log(pg.periods[i] * (1 + 1e-12) / pmin) / math.log(geo))
    f = pmin / (dt * bmin) * geo ** k
    return ideal(N, P / dt, ducy, A, f, b, [int(w) for w in pg.widths])


def run(c):
    import riptide
    bmin, bmax, dt, pmin, pmax, P, N, ducy = setup(c, 60000)
    A = 10.0
    x = signal(N, P / dt, ducy, c["phi"], A)
    ts = riptide.TimeSeries.from_numpy_array(f32(x), dt)
    _, pg = call(riptide.ffa_search, ts, period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, fpmin=1, ducy_max=0.5, wtsp=1.5, deredden=False, already_normalised=True)
    i, j = np.unravel_index(pg.snrs.argmax(), pg.snrs.shape)
    drift = abs(1 / pg.periods[i] - 1 / P) * N * dt / ducy
    # the assumed noise variance varies by up to a factor f - 1/3 below f = 2, and S/N with it: a neighbour may win
    require(drift < (1.0 if pmin >= 2 * dt * bmin else 2.0), f"best trial {pg.periods[i]!r} drifts by {drift:.2f} pulse widths from the true period {P!r} (N={N} tsamp={dt} ducy={ducy:.3f} bins {bmin}-{bmax} from {pmin!r})")
    lo, hi = bounds(pg, i, N, dt, P, ducy, A, pmin, pmax, bmin, bmax)
    S = float(pg.snrs[i, j])
    require(0.9 * lo < S < 1.1 * hi, f"S/N {S:.3f} of a signal whose exact fold has {lo:.3f} to {hi:.3f} (P={P!r} N={N} tsamp={dt} ducy={ducy:.3f} bins {bmin}-{bmax} from {pmin!r})")
    w = float(pg.widths[j]) / (ducy * pg.foldbins[i])
    require(0.6 < w < 2.2, f"best width {pg.widths[j]} bins for a pulse of {ducy * pg.foldbins[i]:.1f}")
    return ["f<2" if c["f"] < 2 else "f>2", f"m={'<30' if c['m'] < 30 else '>30'}", "narrow" if ducy < 0.06 else "wide"]


def run_noise(c):
    import riptide
    bmin, bmax, dt, pmin, pmax, P, N, ducy = setup(c, 40000)
    A = c["amp"]
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    gain, base = 10.0 ** rng.uniform(-3, 3), rng.uniform(-50, 50)
    x = (signal(N, P / dt, ducy, c["phi"], A) + rng.normal(size=N) + base) * gain
    ts = riptide.TimeSeries.from_numpy_array(f32(x), dt)
    T = N * dt
    # a running median over many periods follows the baseline only
    rw = 0.6 * T if c["seed"] % 2 and N > 400 else 0.0
    kw = dict(deredden=bool(rw))
    if rw:
        kw.update(rmed_width=rw, rmed_minpts=101)
    _, pg = call(riptide.ffa_search, ts, period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, fpmin=1, ducy_max=0.5, wtsp=1.5, **kw)
    # the fitted threshold follows the median of the S/N: the signal must not dominate it
    default = ducy < 0.1 and (1 / pmin - 1 / pmax) * T > 50
    peaks, _ = call(riptide.find_peaks, pg, **({} if default else {"minseg": 10**9}))
    require(len(peaks) > 0, "no peak for a signal of amplitude {}", A)
    best = peaks[0]
    i = int(best.ip)
    drift = abs(best.freq - 1 / P) * T / ducy
    require(drift < (1.5 if pmin >= 2 * dt * bmin else 2.5), f"top peak {best.period!r} drifts by {drift:.2f} pulse widths from the true period {P!r} (A={A}, S/N {best.snr})")
    lo, hi = bounds(pg, i, N, dt, P, ducy, A / math.sqrt(1 + A * A / N), pmin, pmax, bmin, bmax)
    require(0.9 * lo - 5.5 < best.snr < 1.1 * hi + 6.5, f"top peak has S/N {best.snr:.2f}, the exact fold of the signal {lo:.2f} to {hi:.2f}")
    return ["deredden" if rw else "raw", "fitted-threshold" if default else "constant-threshold"]


PROP = Prop("C10", [
    Sub("noiseless", gen, run, 1500, 200000, "noiseless von Mises pulse trains of any period, phase, duty cycle from 3 bins to 0.25, 10 to 150 periods, bin ranges and downsamplings; best trial within one pulse width of drift, S/N within 10% of the exact fold's, best width between 0.6 and 2.2 FWHM; every case is non-trivial", shards=(3, 7)),
    Sub("noise", gen, run_noise, 300, 20000, "the same in white noise of any scale and offset, through find_peaks, with and without de-reddening; S/N within 5.5 sigma below and 6.5 above these bounds", shards=(1, 4)),
], assumptions=["pulses of at least 3 bins and at most a quarter of a period, at least 10 periods"])
