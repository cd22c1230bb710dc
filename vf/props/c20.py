import math
from fractions import Fraction
import numpy as np
from ..core import *

KDM = 4.15e3   # the dispersion constant documented for this test, in s MHz^2


def side():
    s = st()
    return case(ducy=s.one_of(s.sampled_from([0.02, 0.5]), logfloat(1e-4, 0.9)), dm=s.one_of(s.sampled_from([0.0, 10.0]), s.floats(0, 2000)), snr=s.one_of(s.just(10.0), logfloat(5.0, 1e4)))


def gen():
    s = st()
    small = s.integers(1, 12)
    big = s.integers(1, 400)
    return case(f=logfloat(1e-3, 1e3), p=s.one_of(small, small, big), q=s.one_of(small, small, big), rel=s.sampled_from(["rational", "rational", "near", "near", "near", "any", "equal"]), eps=s.floats(-3, 3), ratio=logfloat(1e-3, 1e3),
                F=side(), H=side(), samedm=s.booleans(), ddm=s.floats(-3, 3), matchsnr=s.booleans(), dsnr=s.floats(-4, 4), tobs=logfloat(1.0, 1e5), fmin=logfloat(50, 5000), band=s.floats(0.01, 2.0),
                denom=s.one_of(s.sampled_from([100, 1, 2, 10]), s.integers(1, 300)), thr=s.tuples(logfloat(0.05, 20.0), logfloat(0.05, 20.0), logfloat(0.05, 20.0)), kind=s.sampled_from(["peak", "namespace"]), flip=s.booleans())


def closest(x, nmax):
    """the fraction with denominator <= nmax closest to the float x, by exhaustion; and whether another one is as close to rounding"""
    x = Fraction(x)
    cand = set()
    for q in range(1, nmax + 1):
        p0 = math.floor(x * q)
        cand |= {Fraction(p0, q), Fraction(p0 + 1, q)}
    d = sorted((abs(f - x), f) for f in cand)
    return d[0][1], len(d) > 1 and d[1][0] - d[0][0] <= x * Fraction(1, 2 ** 50)


def make(c):
    from types import SimpleNamespace
    from riptide.peak_detection import Peak
    fF = c["f"]
    kdisp = KDM * (c["fmin"] ** -2 - (c["fmin"] * (1 + c["band"])) ** -2)
    if c["rel"] == "rational":
        fH = fF * c["p"] / c["q"]
    elif c["rel"] == "near":   # some pulse widths away over the observation
        fH = fF * c["p"] / c["q"]
        fH += c["eps"] * c["thr"][0] * (c["H"]["ducy"] if fH >= fF else c["F"]["ducy"] * fH / fF) / c["tobs"]
    elif c["rel"] == "any":
        fH = fF * c["ratio"]
    else:
        fH = fF
    if not 1e-6 < fH < 1e7:
        raise Skip("frequency out of range")
    F, H = dict(c["F"], freq=fF), dict(c["H"], freq=fH)
    w = min(F["ducy"] / fF, H["ducy"] / fH)
    if c["samedm"]:
        H["dm"] = F["dm"]
    else:
        H["dm"] = max(0.0, F["dm"] + c["ddm"] * c["thr"][1] * w / kdisp)
    if c["matchsnr"]:
        fr, _ = closest(max(fF, fH) / min(fF, fH), c["denom"])
        H["snr"] = max(1.0, F["snr"] / math.sqrt(fr.numerator * fr.denominator) + c["dsnr"] * c["thr"][2] / 2)
    if c["flip"]:
        F, H = H, F

    def obj(d):
        if c["kind"] == "peak":
            return Peak(period=1.0 / d["freq"], freq=d["freq"], width=3, ducy=d["ducy"], iw=1, ip=2, snr=d["snr"], dm=d["dm"])
        return SimpleNamespace(**d)
    return F, H, obj(F), obj(H)


def run(c):
    from riptide.pipeline.harmonic_testing import htest
    F, H, oF, oH = make(c)
    fmin, fmax, T, den = c["fmin"], c["fmin"] * (1 + c["band"]), c["tobs"], c["denom"]
    slow, fast = (F, H) if F["freq"] <= H["freq"] else (H, F)
    fr, tie = closest(fast["freq"] / slow["freq"], den)
    if tie:
        raise Skip("two fractions are equally close")
    turns = float(abs(fr * Fraction(slow["freq"]) - Fraction(fast["freq"])) * Fraction(T))
    d_phase = turns / fast["ducy"]
    e_phase = 8 * 2.3e-16 * fast["freq"] * T / fast["ducy"] + 1e-12 * d_phase
    frac = fr if fast is H else 1 / fr
    d_dm = abs(F["dm"] - H["dm"]) * KDM * (fmin ** -2 - fmax ** -2) / min(F["ducy"] / F["freq"], H["ducy"] / H["freq"])
    d_snr = abs(H["snr"] - F["snr"] / math.sqrt(frac.numerator * frac.denominator))
    # thresholds drawn, then right above and below each distance
    dist = [d_phase, d_dm, d_snr]
    slack = [e_phase + 1e-9 * d_phase, 1e-9 * d_dm + 1e-12, 1e-9 * max(d_snr, F["snr"], H["snr"])]
    big = 1e300
    lab = [c["rel"], "fast-is-" + ("H" if fast is H else "F")]

    def test(thr, what):
        if any(abs(d - t) <= s for d, t, s in zip(dist, thr, slack)):
            lab.append("skip-threshold")
            return
        exp = all(d < t for d, t in zip(dist, thr))
        rel, got = call(htest, oF, oH, T, fmin, fmax, denom_max=den, phase_distance_max=thr[0], dm_distance_max=thr[1], snr_distance_max=thr[2])
        require(got == frac, f"fraction {got}, the closest to H/F = {H['freq'] / F['freq']!r} with denominator limit {den} is {frac}")
        require(bool(rel) == exp, f"{what}: related = {rel}; distances {dist}, thresholds {thr}")
        return exp
    r = test(list(c["thr"]), "drawn thresholds")
    lab.append(f"related-{r}")
    for i in range(3):
        for up in (True, False):
            t = dist[i] * (1 + 1e-6) + 2 * slack[i] if up else dist[i] * (1 - 1e-6) - 2 * slack[i]
            if t > 0:
                test([t if j == i else big for j in range(3)], f"threshold {i} just {'above' if up else 'below'} its distance")
    rel, inv = call(htest, oH, oF, T, fmin, fmax, denom_max=den)
    require(inv * frac == 1, f"fraction {frac} one way, {inv} the other way")
    if r is None:
        lab.append("trivial")
    return lab


def gen_defaults():
    """one candidate a harmonic of the other, and each distance a drawn multiple of its default limit"""
    s = st()
    d = s.one_of(s.sampled_from([0.0, 0.0, 0.9, 0.97, 1.03, 1.1, 1.3]), s.floats(0.0, 3.0))
    return case(tobs=logfloat(10.0, 1e5), fmin=logfloat(50.0, 5000.0), band=logfloat(0.05, 2.0), f=logfloat(0.05, 500.0), p=s.integers(1, 130), q=s.integers(1, 130),
                ducy=s.tuples(logfloat(0.002, 0.5), logfloat(0.002, 0.5)), dm=s.floats(0.0, 500.0), snr=s.floats(20.0, 200.0), d=s.tuples(d, d, d), flip=s.booleans())


def run_defaults(c):
    """default thresholds are 100, 1, 3, 3; invalid bands and lengths are refused"""
    from types import SimpleNamespace
    from riptide.pipeline.harmonic_testing import htest
    fmin, fmax, T = c["fmin"], c["fmin"] * (1 + c["band"]), c["tobs"]
    p, q = max(c["p"], c["q"]), min(c["p"], c["q"])
    fast = dict(freq=c["f"] * p / q + c["d"][0] * c["ducy"][0] / T, ducy=c["ducy"][0], dm=c["dm"])
    slow = dict(freq=c["f"], ducy=c["ducy"][1])
    w = min(x["ducy"] / x["freq"] for x in (fast, slow))
    slow["dm"] = c["dm"] + c["d"][1] * 3.0 * w / (KDM * (fmin ** -2 - fmax ** -2))
    fr, tie = closest(fast["freq"] / slow["freq"], 100)
    if tie:
        raise Skip("two fractions are equally close")
    F, H = (fast, slow) if c["flip"] else (slow, fast)
    frac = 1 / fr if c["flip"] else fr
    F["snr"] = c["snr"]
    H["snr"] = c["snr"] / math.sqrt(frac.numerator * frac.denominator) + c["d"][2] * 3.0
    oF, oH = SimpleNamespace(**F), SimpleNamespace(**H)
    d_phase = float(abs(fr * Fraction(slow["freq"]) - Fraction(fast["freq"])) * Fraction(T)) / fast["ducy"]
    d = [d_phase, abs(F["dm"] - H["dm"]) * KDM * (fmin ** -2 - fmax ** -2) / w / 3.0, c["d"][2]]
    e = [16 * 2.3e-16 * fast["freq"] * T / fast["ducy"] + 1e-9 * d_phase, 1e-9 * (1 + d[1]) + 1e-12 * KDM * (fmin ** -2 - fmax ** -2) / w, 1e-6]
    a = call(htest, oF, oH, T, fmin, fmax)
    b = call(htest, oF, oH, T, fmin, fmax, denom_max=100, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0)
    require(tuple(a) == tuple(b), f"with the documented default values {b}, without {a}")
    require(a[1] == frac, f"fraction {a[1]}, the closest with denominator up to 100 is {frac}")
    must_raise((ValueError,), htest, oF, oH, T, fmax, fmin)
    must_raise((ValueError,), htest, oF, oH, T, fmin, fmin)
    must_raise((ValueError,), htest, oF, oH, 0.0, fmin, fmax)
    must_raise((ValueError,), htest, oF, oH, -T, fmin, fmax)
    if any(abs(x - 1) <= y for x, y in zip(d, e)):
        return ["skip-threshold", "trivial"]
    exp = all(x < 1 for x in d)
    require(bool(a[0]) == exp, f"related = {a[0]} with the default limits; distances as multiples of these: {d}")
    return [f"related-{a[0]}"] + [f"only-{n}" for i, n in enumerate(("phase", "dm", "snr")) if d[i] > 1 and all(d[j] < 1 for j in range(3) if j != i)]


PROP = Prop("C20", [
    Sub("htest", gen, run, 4000, 60000, "pairs of candidates related by exact, approximate or no fraction, tested with drawn thresholds and on both sides of each distance; non-trivial unless the drawn thresholds coincide with a distance to rounding", shards=(4, 8)),
    Sub("defaults", gen_defaults, run_defaults, 1500, 15000, "default thresholds, with distances drawn as multiples of them, and invalid arguments; non-trivial unless a distance coincides with its limit"),
], assumptions=["the ratio approximated is the double-precision quotient of the two frequencies", "dispersion constant 4.15e3 s MHz^2 as in the code"])
