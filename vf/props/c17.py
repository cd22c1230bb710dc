import os, warnings
import numpy as np
from ..core import *


def words():
    s = st()
    return s.one_of(s.sampled_from(["Parkes", "PKS 0000-00", "a=b", "x = y = z", "1, 2", "0          , 14", "Radio", "None", ""]),
                    s.text(alphabet="abcdefXYZ0189_+-.,;:=()[]{}#/'\" ", max_size=60).map(str.strip))


def coord():
    s = st()
    return case(neg=s.booleans(), d=s.one_of(s.sampled_from([0, 89, 23]), s.integers(0, 89)), m=s.integers(0, 59), s=s.one_of(s.sampled_from([0, 599999]), s.integers(0, 599999)),
                h=s.integers(0, 23), rm=s.integers(0, 59), rs=s.one_of(s.sampled_from([0, 599999]), s.integers(0, 599999)))


def num():
    s = st()
    return s.one_of(s.integers(0, 5000).map(float), s.floats(1e-6, 1e6), s.sampled_from([0.0, 981.0]))


def many_pairs(c):
    """long lists of on/off pairs"""
    if c["many"]:
        k = 3000 + np.random.Generator(np.random.PCG64(c["seed"])).integers(0, 10 ** 10, size=(c["many"], 2))
        return dict(c, pairs=[(int(a), int(b)) for a, b in k])
    return c


def gen():
    s = st()
    return case(band=s.sampled_from(["Radio", "Radio", "Radio", "X-ray", "Gamma"]), many=often(20, s.just(0), logint(46, 1500)), n=often(25, logint(1, 2000), logint(2000, 300000)), seed=seeds(), tsamp=s.one_of(s.sampled_from([6.4e-5, 1e-3, 1.0, 2.56e-4]), logfloat(1e-7, 100.0)),
                basename=words(), telescope=words().filter(lambda t: t != "None (Artificial Data Set)"), instrument=words(), source=words(), observer=words(), analyst=words(), coord=coord(),
                mjd=s.one_of(s.floats(0, 99999), s.sampled_from([0.0, 59000.000000])), bary=s.booleans(), pairs=s.one_of(s.none(), s.none(), s.lists(s.tuples(s.integers(0, 10 ** 9), s.integers(0, 10 ** 9)), min_size=1, max_size=45)),
                nums=s.lists(num(), min_size=6, max_size=6), dm=s.one_of(s.sampled_from([0.0, 42.42]), s.floats(0, 1e4)), nchan=s.integers(1, 100000), fmt=s.sampled_from(["r", "e", "f"]),
                style=s.sampled_from(["(1=yes, 0=no)", "(1 yes, 0 no)"]), lead=s.booleans(), pad=s.sampled_from(["  ", " ", ""]), trail=s.sampled_from(["", " ", "   "]),
                notes=s.lists(s.one_of(words(), s.just(" On/Off bin pair #  1                   =  0          , 14"), s.just(" Type of observation (EM band)          =  Gamma")), max_size=4), notesline=s.booleans(), crlf=s.booleans(),
                fname=s.sampled_from(["x", "x_DM10.50", "a.b.c", "inf.dat", "x.inf", "é x"]), where=s.sampled_from(["plain", "relative", "symlink"]), extra=s.integers(-3, 3))


def fnum(v, fmt):
    return repr(float(v)) if fmt == "r" else f"{v:.17e}" if fmt == "e" else f"{v:.12f}"


def line(c, label, value):
    return f" {label:<39s}={c['pad']}{value}{c['trail']}"


def build(c):
    """(lines, number of mandatory lines, expected fields)"""
    c = many_pairs(c)
    co, f = c["coord"], c["fmt"]
    raj = f"{co['h']:02d}:{co['rm']:02d}:{co['rs'] / 10000:07.4f}"
    decj = f"{'-' if co['neg'] else ''}{co['d']:02d}:{co['m']:02d}:{co['s'] / 10000:07.4f}"
    N = c["n"] + c["extra"] if c["extra"] > 0 else c["n"]
    L, e = [], {}

    def add(label, key, text, val):
        L.append(line(c, label, text))
        e[key] = val

    def addf(label, key, v):
        t = fnum(v, f)
        add(label, key, t, float(t))
    add("Data file name without suffix", "basename", c["basename"], c["basename"])
    add("Telescope used", "telescope", c["telescope"], c["telescope"])
    add("Instrument used", "instrument", c["instrument"], c["instrument"])
    add("Object being observed", "source_name", c["source"], c["source"])
    add("J2000 Right Ascension (hh:mm:ss.ssss)", "raj", raj, raj)
    add("J2000 Declination     (dd:mm:ss.ssss)", "decj", decj, decj)
    add("Data observed by", "observer", c["observer"], c["observer"])
    addf("Epoch of observation (MJD)", "mjd", c["mjd"])
    add("Barycentered?           " + c["style"], "barycentered", str(int(c["bary"])), c["bary"])
    add("Number of bins in the time series", "nsamp", str(N), N)
    t = repr(c["tsamp"]) if f == "f" else fnum(c["tsamp"], f)
    add("Width of each time series bin (sec)", "tsamp", t, float(t))
    add("Any breaks in the data? " + c["style"], "breaks", str(int(c["pairs"] is not None)), c["pairs"] is not None)
    for i, (a, b) in enumerate(c["pairs"] or []):
        L.append(line(c, f"On/Off bin pair #{i + 1:3d}", f"{a:<11d}, {b}"))
    e["onoff_pairs"] = [tuple(p) for p in c["pairs"] or []]
    add("Type of observation (EM band)", "em_band", c["band"], c["band"])
    n = c["nums"]
    if c["band"] == "Radio":
        addf("Beam diameter (arcsec)", "fov_arcsec", n[0])
        addf("Dispersion measure (cm-3 pc)", "dm", c["dm"])
        addf("Central freq of low channel (Mhz)", "fbot", n[1])
        addf("Total bandwidth (Mhz)", "bandwidth", n[2])
        add("Number of channels", "nchan", str(c["nchan"]), c["nchan"])
        addf("Channel bandwidth (Mhz)", "cbw", n[3])
    else:
        addf("Field-of-view diameter (arcsec)", "fov_arcsec", n[0])
        addf("Central energy (kev)", "central_energy_kev", n[4])
        addf("Energy bandpass (kev)", "energy_bandpass_kev", n[5])
    add("Data analyzed by", "analyst", c["analyst"], c["analyst"])
    k = len(L)
    if c["notesline"]:
        L.append(" Any additional notes:")
        L += ["    " + t for t in c["notes"]]
    return L, k, e


def text(c, L):
    nl = "\r\n" if c["crlf"] else "\n"
    return ("\n" if c["lead"] else "") + nl.join(L) + nl


def data(c):
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    return (rng.normal(size=c["n"]) * 10.0 ** rng.integers(-3, 6)).astype(np.float32)


def typed(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(typed(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def check_meta(m, e, c, n, path, who):
    from astropy.coordinates import SkyCoord
    for k, v in e.items():
        require(k in m and typed(v, m[k]), f"{who}: {k} is {m.get(k)!r}, the file has {v!r}")
    if c["band"] != "Radio":
        require(m["dm"] is None, f"{who}: dm of high-energy data is {m['dm']!r}")
    require(m["fname"] == path, f"{who}: fname {m['fname']!r}, expected {path!r}")
    T = n * e["tsamp"]
    require(abs(m["tobs"] - T) <= 1e-12 * T, f"{who}: tobs {m['tobs']!r}, expected {T!r}")
    co = c["coord"]
    ra = 15.0 * (co["h"] + co["rm"] / 60.0 + co["rs"] / 3.6e7)
    dec = (-1 if co["neg"] else 1) * (co["d"] + co["m"] / 60.0 + co["s"] / 3.6e7)
    sc = m["skycoord"]
    require(isinstance(sc, SkyCoord) and abs((sc.icrs.ra.deg - ra + 180) % 360 - 180) < 1e-8 and abs(sc.icrs.dec.deg - dec) < 1e-8, f"{who}: coordinates {sc}, the file has {e['raj']} {e['decj']}")


def run(c):
    import riptide
    from riptide.metadata import Metadata
    from riptide.reading import PrestoInf
    L, k, e = build(c)
    x = data(c)
    with scratch_dir() as d:
        d = os.path.realpath(d)
        sub = os.path.join(d, "p.inf q")
        os.mkdir(sub)
        path = os.path.join(sub, c["fname"] + ".inf")
        with open(path, "w", newline="") as f:
            f.write(text(c, L))
        x.tofile(os.path.join(sub, c["fname"] + ".dat"))
        given, cwd = path, os.getcwd()
        if c["where"] == "relative":
            os.chdir(d)
            given = os.path.join("p.inf q", c["fname"] + ".inf")
        elif c["where"] == "symlink":
            given = os.path.join(d, "link.inf")
            os.symlink(path, given)
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                ts = call(riptide.TimeSeries.from_presto_inf, given)
            inf = call(PrestoInf, given)
            m = call(Metadata.from_presto_inf, given)
            m2 = call(Metadata.from_presto_inf, inf)
        finally:
            os.chdir(cwd)
        uw = [v for v in w if issubclass(v.category, UserWarning)]
        require(bool(uw) == (c["band"] != "Radio"), f"{len(uw)} warnings for {c['band']} data")
        require(same(ts.data, x), f"data are {ts.data[:4]} ({ts.nsamp}), the file has {x[:4]} ({len(x)})")
        require(ts.tsamp == e["tsamp"], f"tsamp {ts.tsamp!r}")
        require(dict(inf) == e, f"fields {sorted(set(inf) ^ set(e))}")
        require(inf.fname == path and inf.data_fname == path[:-4] + ".dat", f"paths {inf.fname} {inf.data_fname}")
        check_meta(ts.metadata, e, c, len(x), path, "TimeSeries")
        check_meta(m, e, c, e["nsamp"], path, "Metadata")
        check_meta(m2, e, c, e["nsamp"], path, "Metadata of a PrestoInf")
    return [c["band"], c["where"], "breaks" if c["pairs"] or c["many"] else "no-breaks"] + (["0<dec<0"] if c["coord"]["neg"] and c["coord"]["d"] == 0 else [])


def gen_bad():
    s = st()
    return case(base=gen(), how=s.sampled_from(["cut", "cut", "fake", "band", "misalign", "misalign", "nodata", "empty", "number"]), k=s.integers(0, 10 ** 6))


def run_bad(c):
    import riptide
    from riptide.metadata import Metadata
    b, how, k = c["base"], c["how"], c["k"]
    L, n, e = build(b)
    both = True
    if how == "cut":
        L = L[:k % n]
    elif how == "fake":
        L[1] = line(b, "Telescope used", "None (Artificial Data Set)")
    elif how == "band":
        i = next(i for i, l in enumerate(L) if l.startswith(" Type of observation"))
        L[i] = line(b, "Type of observation (EM band)", ["Optical", "Infra-red", "", "radio", "UV", "X"][k % 6])
    elif how == "misalign":
        i = k % n
        L[i] = [L[i][1:], " " + L[i], L[i].replace("=", ":"), L[i][:40], L[i][:39] + "= " + L[i][41:]][(k // n) % 5]
        if len(L[i]) > 40 and L[i][40] == "=":
            return ["trivial"]
    elif how == "nodata":
        both = False
    elif how == "empty":
        L = []
    elif how == "number":
        i = [7, 9, 10][k % 3]
        L[i] = line(b, L[i][1:40].strip(), ["", "abc", "1.0.0", "--1"][k // 3 % 4])
    with scratch_dir() as d:
        p = os.path.join(d, "x.inf")
        with open(p, "w", newline="") as f:
            f.write(text(b, L))
        if how != "nodata":
            data(b).tofile(os.path.join(d, "x.dat"))
        must_raise(Exception, riptide.TimeSeries.from_presto_inf, p)
        if both:
            must_raise(Exception, Metadata.from_presto_inf, p)
    return [how]


PROP = Prop("C17", [
    Sub("read", gen, run, 1500, 50000, "well-formed files of the three bands, with or without 1 to 45 on/off pairs, arbitrary text fields (with = signs and commas), number formats, notes that look like fields, line endings, file names with dots, relative paths, links; every documented field with its type, metadata and samples against what was written; every case is non-trivial", shards=(3, 6)),
    Sub("reject", gen_bad, run_bad, 800, 20000, "headers cut at any mandatory line, misaligned lines, artificial data, unsupported bands, malformed numbers, missing data file must raise", shards=(1, 3)),
])
