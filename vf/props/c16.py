import math, os, struct
import numpy as np
from ..core import *

KEYS = {"filename": "s", "telescope_id": "i", "telescope": "s", "machine_id": "i", "data_type": "i", "rawdatafile": "s", "source_name": "s", "barycentric": "i", "pulsarcentric": "i",
        "az_start": "d", "za_start": "d", "src_raj": "d", "src_dej": "d", "tstart": "d", "tsamp": "d", "nbits": "i", "nsamples": "i", "fch1": "d", "foff": "d", "fchannel": "d", "nchans": "i", "nifs": "i",
        "refdm": "d", "flux": "d", "period": "d", "nbeams": "i", "ibeam": "i", "hdrlen": "i", "pb": "d", "ecc": "d", "asini": "d", "orig_hdrlen": "i", "new_hdrlen": "i", "sampsize": "i", "bandwidth": "d",
        "fbottom": "d", "ftop": "d", "obs_date": "s", "obs_time": "s", "accel": "d", "signed": "b"}
PY = {"s": str, "i": int, "d": float, "b": bool}
MAIN = ("src_raj", "src_dej", "tsamp", "nbits", "nchans", "tstart", "refdm", "source_name", "signed")


def value(t):
    s = st()
    return {"s": s.one_of(s.sampled_from(["", "J1234-56", "HEADER_END", "HEADER_START", "tsamp", "a b/c", "\u00e9toile"]), s.text(alphabet="abcXYZ019_+-. ", max_size=90)),
            "i": s.one_of(s.integers(0, 9), s.integers(-2**31, 2**31 - 1)), "d": s.floats(allow_nan=False, allow_infinity=False), "b": s.booleans()}[t]


def coord():
    s = st()
    return case(neg=s.booleans(), d=s.one_of(s.sampled_from([0, 89, 23, 1]), s.integers(0, 89)), m=s.one_of(s.sampled_from([0, 59]), s.integers(0, 59)), s=s.one_of(s.sampled_from([0.0, 59.99, 0.01]), s.integers(0, 599999).map(lambda v: v / 10000)),
                h=s.one_of(s.sampled_from([0, 23]), s.integers(0, 23)), rm=s.integers(0, 59), rs=s.integers(0, 599999).map(lambda v: v / 10000))


def gen():
    s = st()
    other = sorted(k for k in KEYS if k not in MAIN)
    return case(kind=s.sampled_from(["float32", "float32", "int8", "uint8"]), many=often(20, s.just(0), logint(10, 400)), n=often(25, logint(1, 3000), logint(3000, 500000)), seed=seeds(), tail=s.integers(0, 3), tsamp=s.one_of(s.sampled_from([6.4e-5, 1e-3, 1.0]), logfloat(1e-6, 100.0)),
                coord=coord(), refdm=s.one_of(s.none(), s.sampled_from([0.0, 12.5]), s.floats(0, 1e4)), tstart=s.one_of(s.none(), s.floats(0, 1e5)), name=s.one_of(s.none(), value("s")), signed=s.one_of(s.none(), s.booleans()),
                opt=s.lists(s.sampled_from(other), unique=True, max_size=12).flatmap(lambda ks: s.fixed_dictionaries({k: value(KEYS[k]) for k in ks})),
                extra=s.lists(s.tuples(s.sampled_from(["telescope_diameter", "num_trusses", "planet_name", "is_good", "x"]), s.sampled_from("sidb")), max_size=3, unique_by=lambda t: t[0]).flatmap(
                    lambda l: s.fixed_dictionaries({k: s.tuples(s.just(t), value(t)) for k, t in l})),
                retype=s.one_of(s.none(), s.none(), s.floats(0, 10)), spare=s.booleans(), order=seeds(), where=s.sampled_from(["plain", "relative", "symlink", "dots"]))


def pstr(v):
    b = v if isinstance(v, bytes) else v.encode()
    return struct.pack("i", len(b)) + b


def pack(items, start="HEADER_START", end="HEADER_END"):
    out = pstr(start)
    for k, t, v in items:
        out += pstr(k) + (pstr(v) if t == "s" else struct.pack({"i": "i", "d": "d", "b": "B"}[t], v))
    return out + (pstr(end) if end else b"")


def header(c):
    """(items in file order, extra_keys to declare)"""
    co = c["coord"]
    sgn = -1.0 if co["neg"] else 1.0
    items = [("src_raj", "d", co["h"] * 10000.0 + co["rm"] * 100.0 + co["rs"]), ("src_dej", "d", sgn * (co["d"] * 10000.0 + co["m"] * 100.0 + co["s"])), ("tsamp", "d", c["tsamp"]),
             ("nbits", "i", 32 if c["kind"] == "float32" else 8), ("nchans", "i", 1)]
    sig = {"int8": True, "uint8": False}.get(c["kind"], c["signed"])
    if sig is not None:
        items.append(("signed", "b", sig))
    for k, key, t in (("refdm", "refdm", "d"), ("tstart", "tstart", "d"), ("name", "source_name", "s")):
        if c[k] is not None:
            items.append((key, t, c[k]))
    extra = {}
    for k, v in c["opt"].items():
        t = KEYS[k]
        if c["retype"] is not None and k == "ibeam":
            t, v = "d", c["retype"]
            extra[k] = float
        items.append((k, t, v))
    for i in range(c["many"]):      # long headers
        items.append((f"declared_key_{i}", "s", "v" * (i * 7 % 80)) if i % 2 else (f"declared_key_{i}", "d", i / 7))
        extra[f"declared_key_{i}"] = str if i % 2 else float
    for k, (t, v) in c["extra"].items():
        items.append((k, t, v))
        extra[k] = PY[t]
    if c["spare"]:
        extra["never_there"] = int
    rng = np.random.Generator(np.random.PCG64(c["order"]))
    return [items[i] for i in rng.permutation(len(items))], extra


def samples(c):
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    if c["kind"] == "float32":
        x = (rng.normal(size=c["n"]) * 10.0 ** rng.integers(-3, 6)).astype(np.float32)
        return x, x.tobytes() + b"\x01\x02\x03"[:c["tail"]]
    x = rng.integers(-128, 128, size=c["n"]).astype(np.int8) if c["kind"] == "int8" else rng.integers(0, 256, size=c["n"]).astype(np.uint8)
    return x.astype(np.float32), x.tobytes()


def check_meta(m, items, c, n, path, who):
    from astropy.coordinates import SkyCoord
    for k, t, v in items:
        require(k in m and type(m[k]) is PY[t] and m[k] == v, f"{who}: header attribute {k} is {m.get(k)!r}, the file has {v!r}")
    for k, key in (("dm", "refdm"), ("mjd", "tstart"), ("source_name", "name")):
        v = c[key]
        require(m[k] == v and (v is None) == (m[k] is None), f"{who}: {k} is {m[k]!r}, the file has {v!r}")
    require(m["fname"] == path, f"{who}: fname {m['fname']!r}, expected {path!r}")
    T = n * c["tsamp"]
    require(abs(m["tobs"] - T) <= 1e-12 * T, f"{who}: tobs {m['tobs']!r}, {n} samples of {c['tsamp']!r} s")
    co = c["coord"]
    ra = 15.0 * (co["h"] + co["rm"] / 60.0 + co["rs"] / 3600.0)
    dec = (-1 if co["neg"] else 1) * (co["d"] + co["m"] / 60.0 + co["s"] / 3600.0)
    sc = m["skycoord"]
    require(isinstance(sc, SkyCoord) and abs((sc.icrs.ra.deg - ra + 180) % 360 - 180) < 1e-8 and abs(sc.icrs.dec.deg - dec) < 1e-8, f"{who}: coordinates {sc}, the file has {ra} {dec} degrees")


def run(c):
    import riptide
    from riptide.metadata import Metadata
    from riptide.reading import SigprocHeader
    items, extra = header(c)
    x, raw = samples(c)
    hdr = pack(items)
    with scratch_dir() as d:
        d = os.path.realpath(d)
        sub = os.path.join(d, "a.b c")
        os.mkdir(sub)
        path = os.path.join(sub, "x_DM1.0.y.tim" if c["where"] == "dots" else "x.tim")
        with open(path, "wb") as f:
            f.write(hdr + raw)
        given, cwd = path, os.getcwd()
        if c["where"] == "relative":
            os.chdir(d)
            given = os.path.join("a.b c", os.path.basename(path))
        elif c["where"] == "symlink":
            given = os.path.join(d, "link")
            os.symlink(path, given)
        try:
            kw = {"extra_keys": extra} if extra else {}
            ts = call(riptide.TimeSeries.from_sigproc, given, **kw)
            m = call(Metadata.from_sigproc, given, **kw)
            h = call(SigprocHeader, given, **kw)
        finally:
            os.chdir(cwd)
        require(same(ts.data, x), f"{len(x)} samples in the file, data are {ts.data[:5]}... ({ts.nsamp}), expected {x[:5]}...")
        require(ts.tsamp == c["tsamp"], "tsamp")
        check_meta(ts.metadata, items, c, len(x), path, "TimeSeries")
        check_meta(m, items, c, len(x), path, "Metadata")
        require(set(m) == {k for k, _, _ in items} | {"dm", "mjd", "source_name", "fname", "tobs", "skycoord"}, f"unexpected keys in the metadata: {sorted(m)}")
        require(dict(h) == {k: v for k, _, v in items} and h.bytesize == len(hdr) and h.nsamp == len(x), "SigprocHeader")
    lb = [c["kind"], c["where"]]
    if c["extra"]:
        lb.append("extra-keys")
    if "ibeam" in c["opt"] and c["retype"] is not None:
        lb.append("retyped-key")
    if c["coord"]["neg"] and c["coord"]["d"] == 0:
        lb.append("dec-0")
    return lb


def gen_bad():
    s = st()
    return case(base=gen(), how=s.sampled_from(["cut", "cut", "flag", "undeclared", "nbits", "nchans", "unsigned", "noend", "empty", "missing", "encoding"]), u=finite(0, 0.999999), k=s.integers(0, 10 ** 6))


def run_bad(c):
    import riptide
    from riptide.metadata import Metadata
    b, how, k = c["base"], c["how"], c["k"]
    items, extra = header(b)
    x, raw = samples(b)
    hdr = pack(items)
    if how == "cut":
        data = hdr[:int(c["u"] * len(hdr))]
    elif how == "flag":
        data = pack(items, start=["HEADER_STARt", "", "HEADER_END", "header_start", "HEADER_START "][k % 5]) + raw
    elif how == "undeclared":
        extra = {}
        items = list(items)
        items.insert(k % (len(items) + 1), (["foo", "TSAMP", "dm", "nsamp"][k % 4], "d", 1.0))
        data = pack(items) + raw
    elif how == "nbits":
        data = pack([(a, t, [16, 1, 2, 4, 64, 0, 24, 9, 31, 33, -32, 128][k % 12] if a == "nbits" else v) for a, t, v in items]) + raw
    elif how == "nchans":
        data = pack([(a, t, [2, 3, 2, 4, 16, 96, 1024, 65536, 5 + k % 1000][k % 9] if a == "nchans" else v) for a, t, v in items]) + raw
    elif how == "unsigned":
        data = pack([(a, t, 8 if a == "nbits" else v) for a, t, v in items if a != "signed"]) + raw
    elif how == "noend":
        data = pack(items, end=None)
    elif how == "empty":
        data = b""
    elif how == "encoding":     # a string that is not UTF-8
        data = pack([i for i in items if i[0] != "source_name"] + [("source_name", "s", [b"J12\xff34", b"\xe9toile", b"\x80", b"a\xc3"][k % 4])]) + raw
    elif how == "missing":
        gone = ["tsamp", "nbits", "nchans"][k % 3]
        data = pack([i for i in items if i[0] != gone]) + raw
    with scratch_dir() as d:
        p = os.path.join(d, "x.tim")
        with open(p, "wb") as f:
            f.write(data)
        must_raise(Exception, riptide.TimeSeries.from_sigproc, p, extra_keys=extra)
        must_raise(Exception, Metadata.from_sigproc, p, extra_keys=extra)
    return [how]


def gen_hist():
    """Several files read one after the other: extra keys declared for one do not leak into the next."""
    return case(a=gen(), b=gen(), key=st().sampled_from(["telescope_diameter", "x"]))


def run_hist(c):
    import riptide
    a = dict(c["a"], extra={c["key"]: ["d", 1.5]}, spare=False)
    b = dict(c["b"], extra={c["key"]: ["d", 2.5]}, spare=False)
    with scratch_dir() as d:
        ps = []
        for i, q in enumerate((a, b)):
            items, extra = header(q)
            p = os.path.join(d, f"{i}.tim")
            with open(p, "wb") as f:
                f.write(pack(items) + samples(q)[1])
            ps.append((p, extra))
        call(riptide.TimeSeries.from_sigproc, ps[0][0], extra_keys=ps[0][1])
        must_raise(Exception, riptide.TimeSeries.from_sigproc, ps[1][0])
    return ["leak"]


PROP = Prop("C16", [
    Sub("read", gen, run, 1500, 50000, "well-formed files of three sample types, keys in any order, any optional keys with any values (strings that look like flags, extreme numbers), extra and re-typed keys declared by the caller, trailing partial samples, relative paths, links; data, header and metadata against what was written; every case is non-trivial", shards=(3, 6)),
    Sub("reject", gen_bad, run_bad, 800, 20000, "headers cut at any byte, wrong flags, undeclared keys, unsupported depths, several channels, 8-bit data of unknown signedness, missing mandatory keys must raise", shards=(1, 3)),
    Sub("leak", gen_hist, run_hist, 60, 600, "extra keys of one call are not remembered by the next"),
], assumptions=["src_raj, src_dej, tsamp, nbits and nchans are present in well-formed files", "refdm and tstart are not negative"])
