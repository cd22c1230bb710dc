import math
import numpy as np
from ..core import *


def gen():
    s = st()
    return case(n=often(40, logint(2, 20000), sizes(20000, 2 * 10 ** 6)), ppn=s.one_of(s.none(), logfloat(0.2, 50.0)), period=s.one_of(s.integers(2, 500).map(float), logfloat(2.0, 5000.0)), phi0=s.one_of(s.sampled_from([0.0, 0.25, 0.5, 1.0, -0.3, 7.5]), s.floats(-2, 2)),
                ducy=s.one_of(s.sampled_from([0.02, 0.1, 0.5]), s.floats(0.005, 0.9)), amp=s.one_of(s.sampled_from([10.0, 1.0, 0.0]), logfloat(1e-3, 1e4)), tsamp=s.sampled_from([1.0, 1e-3, 6.4e-5, 0.25]), off=s.floats(-0.4, 0.4),
                std=s.one_of(s.just(1.0), logfloat(1e-3, 1e3)), seed=s.integers(0, 2 ** 31))


def pulse(n, period, phi0, ducy, amp):
    """von Mises pulse train of FWHM ducy x period, normalised to square sum amp^2; and the sum before scaling"""
    kappa = math.log(2.0) / (2.0 * math.sin(math.pi * ducy / 2) ** 2)
    ph = np.arange(n) / period - phi0
    ph = ph - np.round(ph)
    x = np.exp(kappa * (np.cos(2 * np.pi * ph) - 1.0))
    return x, float(np.sqrt((x ** 2).sum())), kappa


def length(c):
    return c["n"] if c["ppn"] is None else max(2, min(20000, int(c["period"] * c["ppn"])))


def run(c):
    import riptide
    from riptide.libffa import generate_signal
    n = length(c)
    P, phi0, ducy, amp = c["period"], c["phi0"], c["ducy"], c["amp"]
    x, norm, kappa = pulse(n, P, phi0, ducy, amp)
    if norm < 1e-200:   # no pulse falls in the data: nothing to normalise
        raise Skip("no pulse in the data")
    y = call(generate_signal, n, P, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=0.0)
    y = np.asarray(y, dtype=float)
    require(y.shape == (n,), f"shape {y.shape}, {n} samples requested")
    ref = amp * x / norm
    # phases are known to a few units of rounding of the largest phase
    ephi = 1e-15 * (n / P + abs(phi0) + 1) * 8
    tol = 1e-9 * np.abs(ref) + amp / norm * x * (2 * np.pi * kappa * ephi) * 2 + 1e-12 * amp + amp / norm * 2 * np.pi * kappa * ephi * 1e-3
    check_close(y, ref, tol, "signal")
    require(abs(float(np.sqrt((y ** 2).sum())) - amp) <= 1e-6 * amp, f"square sum {float((y ** 2).sum())}, amplitude {amp}")
    lab = ["whole-periods" if float(P).is_integer() else "fractional", "several" if n >= 3 * P else "few"]
    # through TimeSeries, where times are in seconds
    dt = c["tsamp"]
    T = (n + c["off"]) * dt
    ts = call(riptide.TimeSeries.generate, T, dt, P * dt, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=0.0)
    require(ts.nsamp == n and ts.tsamp == dt and ts.data.dtype == np.float32, f"{ts.nsamp} samples of {ts.tsamp} s ({ts.data.dtype}) for {T} s at {dt} s")
    check_close(ts.data, ref, tol * 1.01 + np.abs(ref) * 1e-6 + 1e-30, "TimeSeries.generate")
    m = ts.metadata
    exp = {"source_name": "fake", "signal_shape": "Von Mises", "signal_period": P * dt, "signal_initial_phase": phi0, "signal_duty_cycle": ducy}
    for k, v in exp.items():
        require(m[k] == v, f"metadata {k} is {m[k]!r}, expected {v!r}")
    require(abs(m["tobs"] - n * dt) <= 1e-9 * n * dt, f"metadata tobs {m['tobs']}, {n} samples of {dt}")
    if n > 3 * P:
        a, b = (np.asarray(call(generate_signal, n, P, stdnoise=0.0, **k)) for k in ({}, dict(phi0=0.5, ducy=0.02, amplitude=10.0)))
        require(np.array_equal(a, b), "default values of generate_signal are not the documented ones")
        a = call(riptide.TimeSeries.generate, T, dt, P * dt, stdnoise=0.0)
        b = call(riptide.TimeSeries.generate, T, dt, P * dt, phi0=0.5, ducy=0.02, amplitude=10.0, stdnoise=0.0)
        require(np.array_equal(a.data, b.data) and a.metadata["signal_initial_phase"] == 0.5 and a.metadata["signal_duty_cycle"] == 0.02, "default values are not the documented ones")
    # same phase, one period later; the peak; the width at half maximum
    if float(P).is_integer() and n > P:
        check_close(y[int(P):], y[:-int(P)], tol[int(P):] + tol[:-int(P)], "signal one period later")
    k = (round(phi0 * P) if 0 <= phi0 <= 1 else None)
    if k is not None and abs(phi0 * P - k) < 1e-9 and k < n and amp > 0:
        require(abs(y[k] - amp / norm) <= 1e-6 * amp / norm, f"sample {k} at phase phi0 is {y[k]}, the peak is {amp / norm}")
        require(y.max() <= y[k] * (1 + 1e-9), f"highest sample {y.max()} is above the one at phi0, {y[k]}")
        lab.append("peak-on-sample")
        h = ducy * P / 2
        if abs(h - round(h)) < 1e-9 and k + round(h) < n:
            require(abs(y[k + round(h)] - y[k] / 2) < 1e-6 * y[k], f"half a FWHM after the peak the signal is {y[k + round(h)] / y[k]} of it")
            lab.append("half-width-on-sample")
    if amp == 0:
        lab.append("trivial")
    return lab


def run_noise(c):
    """Noise: what is added is the noise, and it has the statistics of white noise of the requested standard deviation"""
    from riptide.libffa import generate_signal
    n = max(2000, length(c))
    P, phi0, ducy, amp, std = c["period"], c["phi0"], c["ducy"], c["amp"], c["std"]
    if pulse(n, P, phi0, ducy, amp)[1] < 1e-200:
        raise Skip("no pulse in the data")
    clean = np.asarray(call(generate_signal, n, P, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=0.0))
    np.random.seed(c["seed"] % (2 ** 32))
    y = np.asarray(call(generate_signal, n, P, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=std))
    r = (y - clean) / std
    require(r.shape == (n,) and np.isfinite(r).all(), "noise has the wrong shape or is not finite")
    e = 7.0   # sigmas
    require(abs(r.mean()) < e / math.sqrt(n), f"noise mean {r.mean()} for {n} samples")
    require(abs(r.var() - 1) < e * math.sqrt(2.0 / n), f"noise variance {r.var()} times the requested one")
    require(abs((r[1:] * r[:-1]).mean()) < e / math.sqrt(n - 1), f"noise samples are correlated: {(r[1:] * r[:-1]).mean()}")
    k = np.arange(2, max(3, 9 * n // 10))
    m = 1 << int(math.ceil(math.log2(2 * n)))
    z = np.abs(np.fft.irfft(np.abs(np.fft.rfft(r, m)) ** 2, m)[k]) / np.sqrt(n - k)     # samples that repeat correlate at that lag
    require(z.max() < e + 1, f"noise samples {k[z.argmax()]} apart are correlated: {z.max()} sigma")
    require(abs((r ** 3).mean()) < e * math.sqrt(15.0 / n) and abs((r ** 4).mean() - 3) < 2 * e * math.sqrt(96.0 / n) , f"noise is not Gaussian: moments {(r ** 3).mean()}, {(r ** 4).mean()}")
    if std == 1.0:
        np.random.seed(c["seed"] % (2 ** 32))
        y1 = np.asarray(call(generate_signal, n, P, phi0=phi0, ducy=ducy, amplitude=amp))
        require(abs((y1 - clean).var() - 1) < e * math.sqrt(2.0 / n), f"noise variance {(y1 - clean).var()} by default")
    y2 = np.asarray(call(generate_signal, n, P, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=std))
    require(not np.array_equal(y, y2), "two realisations of the noise are identical")
    sc = float(np.dot(r, clean))
    require(abs(sc) < e * max(amp, 1e-9) * 1.001, f"noise correlates with the signal: {sc} for amplitude {amp}")
    return ["noise"]


def gen_noise():
    s = st()
    return s.tuples(gen(), often(6, s.none(), sizes(20000, 600000))).map(lambda t: t[0] if t[1] is None else {**t[0], "n": t[1], "ppn": None})


PROP = Prop("C25", [
    Sub("signal", gen, run, 1500, 25000, "noiseless signals against the closed form; non-trivial unless the amplitude is zero", shards=(2, 8)),
    Sub("noise", gen_noise, run_noise, 250, 3000, "seeded noise realisations, first four moments, correlation; all distinct cases are non-trivial", shards=(2, 8)),
], assumptions=["noise statistics are tested at 7 standard deviations with the seeds fixed by the case"])
