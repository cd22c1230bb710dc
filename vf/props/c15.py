import json, math, os
import numpy as np
from ..core import *

DTYPES = ["float32", "float64", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool", "complex64", "complex128", "float16", ">f4", ">i2"]


FRAMES = ["galactic", "fk5", "fk4", "supergalactic", "barycentrictrueecliptic", "fk5-1975"]


def keys(o):
    """keys of a nest of dictionaries and lists, numbers and texts left out"""
    return {k: keys(v) for k, v in o.items()} if isinstance(o, dict) else [keys(v) for v in o] if isinstance(o, list) else None


def text():
    s = st()
    return s.one_of(s.sampled_from(["", "a", "J1234-56", "é\u2603", "a\"b\\c\n", "None", "1", "numpy.ndarray"]), s.text(max_size=8).filter(lambda t: not t.startswith("__") and not any(0xD800 <= ord(c) < 0xE000 for c in t)))


def floats():
    s = st()
    return s.one_of(s.floats(allow_nan=False), s.sampled_from([0.0, -0.0, 1 / 3, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, 0.1]))


def array():
    s = st()
    return case(t="array", dtype=s.sampled_from(DTYPES), shape=often(25, s.one_of(s.lists(s.integers(1, 5), max_size=3), s.lists(s.integers(0, 4), min_size=1, max_size=2), logint(1, 3000).map(lambda n: [n])), logint(3000, 400000).map(lambda n: [n])),
                seed=seeds(), order=s.sampled_from(["c", "c", "f", "strided", "reversed"]))


def sky():
    s = st()
    return case(t="sky", ra=s.one_of(finite(0, 359.999999), s.sampled_from([0.0, 359.9999999999, 180.0, 83.63])), dec=s.one_of(finite(-90, 90), s.sampled_from([-90.0, 90.0, 0.0, -0.5])), frame=s.sampled_from(["icrs", "icrs", "galactic", "fk5", "hms"] + FRAMES))


def df():
    s = st()
    return s.integers(1, 5).flatmap(lambda k: case(t="df", rows=s.integers(0, 6), cols=s.lists(text().filter(bool), min_size=k, max_size=k, unique=True), ints=s.booleans(), last=often(3, s.just("number"), s.sampled_from(["text", "unknown", "gaps"])), seed=seeds()))


def meta():
    s = st()
    plain = s.one_of(s.integers(-2**53, 2**53), floats(), s.booleans(), s.none(), text(), s.lists(s.integers(0, 9), max_size=3))
    return s.fixed_dictionaries({}, optional={"source_name": s.one_of(text(), s.none()), "dm": s.one_of(s.floats(0, 1e4), s.none()), "mjd": s.one_of(s.floats(0, 1e5), s.none()), "fname": text(),
                                              "skycoord": s.one_of(sky(), s.none()), "extra": plain, "é x": plain})


def node():
    s = st()
    leaf = s.one_of(s.integers(-2**63, 2**63).map(lambda v: {"t": "int", "v": v}), floats().map(lambda v: {"t": "float", "v": repr(v)}), s.booleans().map(lambda v: {"t": "bool", "v": v}), s.just({"t": "none"}), text().map(lambda v: {"t": "str", "v": v}),
                    case(t="np", dtype=s.sampled_from(["float32", "float64", "int32", "uint8", "int64"]), v=s.integers(0, 100)),
                    array(), array(), sky(), df(),
                    case(t="ts", n=s.integers(1, 50), tsamp=s.sampled_from([1.0, 1e-3, 1 / 3]), seed=seeds(), meta=meta(), version=s.sampled_from([None, None, "0.0.9", "x"])),
                    case(t="pgram", n=s.integers(0, 20), nw=s.integers(1, 4), seed=seeds(), meta=meta(), version=s.sampled_from([None, None, "0.0.9"])),
                    case(t="cand", nsub=s.integers(0, 5), bins=s.integers(1, 20), npeaks=s.integers(1, 5), nodm=often(3, s.just(False), s.just(True)), seed=seeds(), meta=meta(), version=s.sampled_from([None, None, "0.0.9"])))
    return s.recursive(leaf, lambda c: s.one_of(s.lists(c, max_size=4).map(lambda v: {"t": "list", "v": v}), s.dictionaries(text(), c, max_size=4).map(lambda v: {"t": "dict", "v": v})), max_leaves=8)


def build_sky(c):
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    if c["frame"] == "hms":
        x = SkyCoord(c["ra"], c["dec"], unit=(u.deg, u.deg))
        return SkyCoord(x.ra.to_string(unit=u.hour, sep=":", precision=3), x.dec.to_string(unit=u.deg, sep=":", precision=2), unit=(u.hour, u.deg), frame="icrs")
    if c["frame"] == "fk5-1975":
        return SkyCoord(c["ra"] * u.deg, c["dec"] * u.deg, frame="fk5", equinox="J1975")
    return SkyCoord(c["ra"] * u.deg, c["dec"] * u.deg, frame=c["frame"])


def build_meta(m):
    return {k: (build_sky(v) if k == "skycoord" and v is not None else v) for k, v in m.items()}


def build(c, rng=None):
    import riptide
    t = c["t"]
    if t in ("int", "bool", "str"):
        return c["v"]
    if t == "float":
        return float(c["v"])
    if t == "none":
        return None
    if t == "np":
        return np.dtype(c["dtype"]).type(c["v"])
    if t == "list":
        return [build(v) for v in c["v"]]
    if t == "dict":
        return {k: build(v) for k, v in c["v"].items()}
    if t == "sky":
        return build_sky(c)
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    if t == "array":
        dt = np.dtype(c["dtype"])
        raw = rng.normal(size=c["shape"]) * 100
        a = (rng.random(size=c["shape"]) < 0.5) if dt.kind == "b" else raw.astype(dt) if dt.kind == "f" else (raw + 1j * raw[::-1] if raw.ndim else raw + 1j).astype(dt) if dt.kind == "c" else np.abs(raw).astype(dt)
        a = np.asarray(a, dtype=dt)
        if dt.kind == "f" and a.size > 3:
            a.reshape(-1)[:3] = [np.nan, np.inf, -0.0]
        if c["order"] == "f":
            a = np.asfortranarray(a)
        elif c["order"] == "strided" and a.ndim:
            b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=dt)
            b[..., ::2] = a
            a = b[..., ::2]
        elif c["order"] == "reversed" and a.ndim:
            a = a[::-1]
        return a
    if t == "df":
        import pandas
        v = rng.normal(size=(c["rows"], len(c["cols"])))
        if c["ints"]:
            v = np.round(v * 10).astype(int)
        d = pandas.DataFrame(v, columns=c["cols"])
        if c["last"] != "number":       # a column that is not numeric
            words = ["", "B0531+21", "é", '"', "0", "None"]
            d[c["cols"][-1]] = [None if c["last"] == "unknown" or c["last"] == "gaps" and i % 2 else words[int(rng.integers(0, len(words)))] for i in range(c["rows"])]
        return d
    m = build_meta(c["meta"])
    if t == "ts":
        o = riptide.TimeSeries(rng.normal(size=c["n"]), c["tsamp"], metadata=m)
    elif t == "pgram":
        m["tobs"] = 100.0
        n = c["n"]
        o = riptide.Periodogram(np.arange(1, c["nw"] + 1), 1 + np.sort(rng.random(n)), rng.integers(10, 20, n).astype(np.uint32), rng.normal(size=(n, c["nw"])).astype(np.float32) + 5, metadata=riptide.metadata.Metadata(m))
    elif t == "cand":
        import pandas
        m["tobs"] = 100.0
        k = c["npeaks"]
        peaks = pandas.DataFrame({"period": rng.random(k) + 1, "freq": rng.random(k), "dm": rng.integers(0, 3, k) * 1.5, "width": rng.integers(1, 9, k), "ducy": rng.random(k), "snr": rng.random(k) * 20})
        if c["nodm"]:       # the DM is unknown
            peaks["dm"] = [None] * k
        p = {"period": 1 / 3, "freq": 3.0, "dm": None if c["nodm"] else 1.5, "width": 4, "ducy": 0.1, "snr": float(rng.random())}
        b = c["bins"]
        sub = rng.normal(size=b if c["nsub"] == 0 else (c["nsub"], b)).astype(np.float32)
        o = riptide.Candidate(p, riptide.metadata.Metadata(m), peaks, sub)
    if c["version"]:
        o.version = c["version"]
    return o


def equal(a, b, path):
    import pandas, riptide
    from astropy.coordinates import SkyCoord
    if isinstance(a, np.ndarray):
        require(isinstance(b, np.ndarray), f"{path}: {type(b).__name__} instead of an array")
        require(a.dtype == b.dtype and a.shape == b.shape, f"{path}: {b.dtype} {b.shape} instead of {a.dtype} {a.shape}")
        require(np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes(), f"{path}: contents of the array differ")
        require(b.flags.writeable, f"{path}: loaded array is read-only")
        return
    if isinstance(a, np.generic):
        require(type(b) is type(a.item()) and b == a.item(), f"{path}: {b!r} instead of {a!r}")
        return
    if isinstance(a, pandas.DataFrame):
        require(isinstance(b, pandas.DataFrame) and list(a.columns) == list(b.columns) and a.shape == b.shape, f"{path}: table differs")
        for i, (x, y) in enumerate(zip(a.values.reshape(-1).tolist(), b.values.reshape(-1).tolist())):
            require(x == y and isinstance(x, str) == isinstance(y, str) or (x is None or x != x) and (y is None or y != y), f"{path}: value {i} of the table is {y!r} instead of {x!r}")
        if a.size:
            b.iloc[0, 0] = b.iloc[0, 0]
        return
    if isinstance(a, SkyCoord):
        require(isinstance(b, SkyCoord), f"{path}: {type(b).__name__} instead of SkyCoord")
        sep = a.icrs.separation(b.icrs).deg
        require(sep < 1e-9, f"{path}: coordinates moved by {sep} degrees")
        return
    if isinstance(a, (riptide.TimeSeries, riptide.Periodogram, riptide.Candidate)):
        require(type(a) is type(b), f"{path}: {type(b).__name__} instead of {type(a).__name__}")
        attrs = {"TimeSeries": ("data", "tsamp", "metadata", "nsamp", "length"), "Periodogram": ("widths", "periods", "foldbins", "snrs", "metadata", "freqs", "tobs"),
                 "Candidate": ("params", "tsmeta", "peaks", "subints", "profile")}[type(a).__name__]
        for k in attrs:
            if k in ("freqs", "profile"):
                require(np.array_equal(getattr(a, k), getattr(b, k)), f"{path}.{k}")
            else:
                equal(getattr(a, k), getattr(b, k), f"{path}.{k}")
        v = getattr(a, "version", None) or riptide.__version__
        require(b.version == v, f"{path}: version {b.version!r}, saved as {v!r}")
        if isinstance(a, riptide.Candidate):
            for x, y in zip(a.dm_curve, b.dm_curve):
                require(np.array_equal(x, y), f"{path}.dm_curve")
        if isinstance(a, riptide.Periodogram) and len(a.periods):
            pa, _ = call(riptide.find_peaks, a, smin=5.0, segwidth=1e9)
            pb, _ = call(riptide.find_peaks, b, smin=5.0, segwidth=1e9)
            require(pa == pb, f"{path}: peaks of the loaded periodogram differ")
        if isinstance(a, riptide.TimeSeries):
            k = b.copy()
            call(k.deredden, k.tsamp, minpts=101, inplace=True) if k.nsamp > 1 else None
        return
    if isinstance(a, dict):
        require(isinstance(b, dict) and list(a) == list(b), f"{path}: keys {list(b) if isinstance(b, dict) else b!r} instead of {list(a)}")
        for k in a:
            equal(a[k], b[k], f"{path}[{k!r}]")
        return
    if isinstance(a, list):
        require(isinstance(b, list) and len(a) == len(b), f"{path}: {b!r} instead of {a!r}")
        for i, (x, y) in enumerate(zip(a, b)):
            equal(x, y, f"{path}[{i}]")
        return
    require(type(a) is type(b) and (a == b or a != a and b != b) and math.copysign(1, a if isinstance(a, float) else 1) == math.copysign(1, b if isinstance(b, float) else 1), f"{path}: {b!r} instead of {a!r}")


def gen():
    return case(o=node(), indent=st().sampled_from([4, None, "default"]))


def run(c):
    import riptide
    o = build(c["o"])
    kw = {} if c["indent"] == "default" else {"indent": c["indent"]}
    with scratch_dir() as d:
        p = os.path.join(d, "a.json")
        call(riptide.save_json, p, o, **kw)
        b = call(riptide.load_json, p)
        equal(o, b, "obj")
        with open(p) as f:
            t1 = f.read()
        json.loads(t1)
        call(riptide.save_json, p, b, **kw)
        with open(p) as f:
            t2 = f.read()
    from riptide.serialization import from_json, to_json
    if c["o"]["t"] not in ("df", "cand") and "\"df\"" not in canon(c) and "\"cand\"" not in canon(c) and not any('"%s"' % f in canon(c) for f in FRAMES):
        require(t1 == t2, "the second round trip gives another text")
    require(keys(json.loads(t1)) == keys(json.loads(t2)), f"the second round trip writes other keys: {t2[:600]} after {t1[:600]}")
    require(call(to_json, o, **kw) == t1, "the same object saved twice gives two texts")
    b2 = call(from_json, call(to_json, b, **kw))
    equal(b, b2, "obj (second round trip)")
    require(call(to_json, b2, **kw) == t2, "the third round trip gives another text than the second one")
    kinds = sorted({x.split('"')[0] for x in canon(c["o"]).split('"t": "')[1:]})
    return kinds + (["trivial"] if kinds in ([k] for k in ("int", "float", "bool", "none", "str", "list", "dict", "np")) else [])


PROP = Prop("C15", [
    Sub("roundtrip", gen, run, 1500, 60000, "nested lists and dicts of plain values, arrays (16 types, 0 to 3 dimensions, all layouts, NaN, infinities, empty), tables (of numbers, text, unknown values), sky coordinates, time series, periodograms, candidates with metadata and versions; non-trivial: contains an array, a table, coordinates or a riptide object", shards=(3, 6)),
], assumptions=["no tuples, no non-string keys, no keys starting with two underscores, integer columns of tables may come back as floats"])
