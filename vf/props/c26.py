import copy, json, math
import numpy as np
from ..core import *

RESERVED = ("source_name", "skycoord", "dm", "mjd", "tobs", "fname")


def plain(depth=2):
    s = st()
    leaf = s.one_of(s.none(), s.booleans(), s.integers(-10 ** 6, 10 ** 6), s.floats(-1e6, 1e6), s.text(max_size=8), s.sampled_from([0, "", 1.0, -1]))
    if depth == 0:
        return leaf
    return s.one_of(leaf, leaf, s.lists(plain(depth - 1), max_size=3), s.dictionaries(s.text(max_size=4), plain(depth - 1), max_size=3))


# reserved values as [tag, value] since cases are JSON
def reserved(key):
    s = st()
    if key in ("source_name", "fname"):
        return s.one_of(s.just(["v", None]), s.text(max_size=10).map(lambda v: ["v", v]))
    if key == "skycoord":
        return s.one_of(s.just(["v", None]), s.tuples(s.floats(0, 360), s.floats(-90, 90), s.sampled_from(["icrs", "galactic", "fk5"])).map(lambda t: ["sky", list(t)]))
    lo = {"dm": 0.0, "mjd": 0.0, "tobs": 1e-9}[key]
    return s.one_of(s.just(["v", None]), s.sampled_from([["v", lo], ["v", 55000.0]]), s.floats(lo, 1e6).map(lambda v: ["v", v]))


BAD = {"source_name": [["v", 1], ["v", 1.5], ["v", ["a"]], ["v", {}], ["v", True], ["sky", [1.0, 2.0, "icrs"]], ["bytes", "abc"]],
       "fname": [["v", 0], ["v", []], ["v", False], ["bytes", "abc"], ["path", "a"]],
       "skycoord": [["v", "12:00:00 -30:00:00"], ["v", [12.0, -30.0]], ["v", 1.0], ["v", {}], ["v", ""], ["v", False]],
       "dm": [["v", -1e-9], ["v", -5.0], ["v", 5], ["v", 0], ["v", "5.0"], ["v", True], ["nan", 0], ["v", [1.0]], ["f32", 1.0]],
       "mjd": [["v", -1e-9], ["v", 59000], ["v", "59000.0"], ["nan", 0], ["v", {}], ["v", False]],
       "tobs": [["v", 0.0], ["v", -1.0], ["v", 600], ["v", "600"], ["nan", 0], ["v", []], ["v", True]]}
UNSER = [["set", [1, 2]], ["obj", 0], ["bytes", "abc"], ["array", [1.0, 2.0]], ["i64", 3], ["nested-set", [1]], ["complex", 1.0], ["sky", [1.0, 2.0, "icrs"]], ["f32", 1.0], ["type", 0]]
BADKEYS = [["k", 1], ["k", None], ["k", 1.5], ["ktuple", ["a", "b"]], ["kbytes", "dm"], ["k", True]]


def decode(t):
    tag, v = t
    if tag == "v":
        return copy.deepcopy(v)
    if tag == "sky":
        from astropy.coordinates import SkyCoord
        return SkyCoord(v[0], v[1], unit="deg", frame=v[2])
    if tag == "path":
        import pathlib
        return pathlib.Path(v)
    return {"bytes": lambda: v.encode(), "nan": lambda: float("nan"), "f32": lambda: np.float32(v), "set": lambda: set(v), "obj": object, "array": lambda: np.asarray(v), "i64": lambda: np.int64(v),
            "nested-set": lambda: {"a": [set(v)]}, "complex": lambda: complex(v, 1.0), "type": lambda: int, "k": lambda: v, "ktuple": lambda: tuple(v), "kbytes": lambda: v.encode()}[tag]()


def bad():
    s = st()
    return s.one_of(
        s.none(), s.none(),
        s.sampled_from(sorted(BAD)).flatmap(lambda k: s.sampled_from(BAD[k]).map(lambda v: ["reserved", k, v])),
        s.tuples(s.text(min_size=1, max_size=5), s.sampled_from(UNSER)).map(lambda t: ["value", t[0], t[1]]),
        s.sampled_from(BADKEYS).map(lambda v: ["key", v, None]),
        s.sampled_from([["v", 3], ["v", "abc"], ["v", [1, 2]], ["v", None]]).map(lambda v: ["whole", None, v]))


def gen():
    s = st()
    keys = s.lists(s.sampled_from(RESERVED), unique=True)
    return case(res=keys.flatmap(lambda ks: s.fixed_dictionaries({k: reserved(k) for k in ks})), extra=s.dictionaries(s.one_of(s.sampled_from(["tsamp", "nsamp", "DM", "onoff_pairs", "__type__x"]), s.text(max_size=6)), plain(), max_size=6),
                bad=bad(), order=seeds(), how=s.sampled_from(["dict", "metadata", "kwdict"]))


def equal(a, b):
    from astropy.coordinates import SkyCoord
    if isinstance(a, SkyCoord):
        return isinstance(b, SkyCoord) and (a is b or (a.frame.name == b.frame.name and bool(np.all(a.separation(b).deg < 1e-12))))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a == b or a != a)


def run(c):
    from riptide import Metadata
    items = [(k, decode(v)) for k, v in c["res"].items()] + [(k, copy.deepcopy(v)) for k, v in c["extra"].items() if k not in RESERVED]
    rng = np.random.Generator(np.random.PCG64(c["order"]))
    items = [items[i] for i in rng.permutation(len(items))]
    b = c["bad"]
    if b is not None and b[0] == "whole":
        must_raise((Exception,), Metadata, decode(b[2]))
        return ["not-a-mapping", "trivial"]
    d = dict(items)
    if b is not None:
        if b[0] == "key":
            d[decode(b[1])] = 1
        elif b[0] == "value" and b[1] in RESERVED:
            raise Skip("bad value on a reserved key")
        else:
            d[b[1]] = decode(b[2])
        keys = list(d)
        must_raise((Exception,), Metadata, d)
        must_raise((Exception,), Metadata.from_dict, d)
        require(list(d) == keys, "the mapping was modified")
        return ["refused-" + b[0]] + ([f"refused-{b[1]}"] if b[0] == "reserved" else [])
    before = list(d.items())
    m = call(Metadata, d)
    require(list(d.items()) == before and all(x is y for (_, x), (_, y) in zip(d.items(), before)), "the mapping given was modified")

    def complete(m, who):
        require(type(m) is Metadata and isinstance(m, dict), f"{who} is a {type(m)}")
        require(set(m) == set(d) | set(RESERVED), f"{who}: keys {sorted(map(repr, m))}, expected {sorted(set(d) | set(RESERVED))}")
        for k in m:
            require(equal(d.get(k, None), m[k]), f"{who}: {k} is {m[k]!r}, given {d.get(k, None)!r}")
    complete(m, "Metadata")
    require(not [k for k in RESERVED if k not in d and m[k] is not None], "missing reserved keys are not None")
    # independence, both ways
    n = call(Metadata, d)
    n["added"] = 1
    n.pop("tobs")
    complete(m, "Metadata after changes to another one")
    require("added" not in d and ("tobs" in d) == ("tobs" in dict(before)), "a change in Metadata changed the mapping")
    m2 = call(Metadata, d)
    d2 = dict(d)
    d["added"] = 2
    require("added" not in m2, "a change in the mapping changed Metadata")
    del d["added"]
    # empty ones do not share anything
    e = call(Metadata)
    require(dict(e) == {k: None for k in RESERVED}, f"empty metadata: {dict(e)}")
    e["x"] = 1
    require("x" not in call(Metadata), "two empty Metadata share their items")
    # round trip
    t = call(m.to_dict)
    require(type(t) is dict and set(t) == set(m), f"to_dict: {t}")
    complete(call(Metadata.from_dict, t), "from_dict(to_dict)")
    t["added"] = 3
    require("added" not in m, "to_dict returns the object itself")
    complete(call(Metadata, m), "Metadata(Metadata)")
    require(isinstance(call(str, m), str) and isinstance(call(repr, m), str), "no text")
    return [f"reserved-{len(c['res'])}", f"extra-{min(3, len(c['extra']))}"] + (["trivial"] if not d else [])


PROP = Prop("C26", [
    Sub("metadata", gen, run, 2500, 40000, "mappings with any subset of the reserved keys and nested plain values, and 0 or 1 corruption; non-trivial unless empty or not a mapping", shards=(4, 8),
        examples=[{"res": {}, "extra": {"a": 1}, "bad": ["reserved", k, v], "order": 0, "how": "dict"} for k in sorted(BAD) for v in BAD[k]] +
                 [{"res": {}, "extra": {"a": 1}, "bad": ["value", "x", v], "order": 0, "how": "dict"} for v in UNSER] + [{"res": {}, "extra": {"a": 1}, "bad": ["key", v, None], "order": 0, "how": "dict"} for v in BADKEYS]),
], assumptions=["infinite values of the reserved numbers are not generated"])
