import copy, math, os
import numpy as np
from ..core import *

# path: (kind, nullable, optional); "*" is the index of a search range
F = {
    ("processes",): ("int", False, False),
    ("data", "format"): ("format", False, False),
    ("data", "fmin"): ("pos", True, False),
    ("data", "fmax"): ("pos", True, False),
    ("data", "nchans"): ("int", True, False),
    ("dmselect", "min"): ("num", True, False),
    ("dmselect", "max"): ("num", True, False),
    ("dmselect", "dmsinb_max"): ("pos", True, False),
    ("dereddening", "rmed_width"): ("pos", False, False),
    ("dereddening", "rmed_minpts"): ("pos", False, False),
    ("ranges", "*", "name"): ("str", False, False),
    ("ranges", "*", "ffa_search", "period_min"): ("pos", False, False),
    ("ranges", "*", "ffa_search", "period_max"): ("pos", False, False),
    ("ranges", "*", "ffa_search", "bins_min"): ("int", False, False),
    ("ranges", "*", "ffa_search", "bins_max"): ("int", False, False),
    ("ranges", "*", "ffa_search", "fpmin"): ("int", False, True),
    ("ranges", "*", "ffa_search", "wtsp"): ("gt1", False, True),
    ("ranges", "*", "ffa_search", "ducy_max"): ("unit", False, True),
    ("ranges", "*", "find_peaks", "smin"): ("pos", False, True),
    ("ranges", "*", "find_peaks", "segwidth"): ("pos", False, True),
    ("ranges", "*", "find_peaks", "nstd"): ("pos", False, True),
    ("ranges", "*", "find_peaks", "minseg"): ("int", False, True),
    ("ranges", "*", "find_peaks", "polydeg"): ("posint", False, True),
    ("ranges", "*", "find_peaks", "clrad"): ("pos", False, True),
    ("ranges", "*", "candidates", "bins"): ("int", False, False),
    ("ranges", "*", "candidates", "subints"): ("int", True, False),
    ("clustering", "radius"): ("pos", False, False),
    ("harmonic_flagging", "denom_max"): ("int", False, False),
    ("harmonic_flagging", "phase_distance_max"): ("pos", False, False),
    ("harmonic_flagging", "dm_distance_max"): ("pos", False, False),
    ("harmonic_flagging", "snr_distance_max"): ("pos", False, False),
    ("candidate_filters", "dm_min"): ("num", True, False),
    ("candidate_filters", "snr_min"): ("num", True, False),
    ("candidate_filters", "remove_harmonics"): ("bool", True, False),
    ("candidate_filters", "max_number"): ("int", True, False),
    ("plot_candidates",): ("bool", False, False),
}
PATHS = sorted(F)
SECTIONS = [(), ("data",), ("dmselect",), ("dereddening",), ("ranges", "*"), ("ranges", "*", "ffa_search"), ("ranges", "*", "find_peaks"), ("ranges", "*", "candidates"),
            ("clustering",), ("harmonic_flagging",), ("candidate_filters",)]
JUNK = ["abc", "", [], [1.0], {}, {"a": 1}]
BAD = {   # values that are never valid for the kind (numeric strings, booleans for numbers: not decided by the documentation)
    "int": [0, -1, -5, 1.5, 2.0, 0.5, "3", "abc", [], [3], {}],
    "pos": [0, 0.0, -1, -1e-9, -0.5, float("nan")] + JUNK,
    "posint": [0, 0.0, -1, -2.0] + JUNK,
    "num": JUNK,
    "gt1": [1, 1.0, 0.5, 0, -2, 0.999999] + JUNK,
    "unit": [0.0, 1.0, -0.1, 1.5, 1, 0, 2] + JUNK,
    "bool": [0, 1, "yes", "true", 1.0, [], {}],
    "str": [1, 1.5, [], ["a"], {}, True],
    "format": ["Presto", "SIGPROC", "", "presto ", "fits", 1, [], ["presto"], {}, True],
}


def good(kind):
    s = st()
    pos = s.one_of(s.sampled_from([1, 5, 0.2, 1e-6]), s.integers(1, 1000), logfloat(1e-6, 1e6))
    return {"int": s.one_of(s.just(1), s.integers(1, 5000)), "pos": pos, "posint": s.sampled_from([1, 2, 3, 2.0]), "num": s.one_of(s.sampled_from([0, 0.0, -5, 1000.0]), s.integers(-100, 1000), s.floats(-1e3, 1e4)),
            "gt1": s.one_of(s.sampled_from([1.5, 2, 1.0001, 3]), s.floats(1.001, 10)), "unit": s.one_of(s.sampled_from([0.3, 0.999, 1e-3]), s.floats(0.001, 0.999)), "bool": s.booleans(),
            "str": s.sampled_from(["short", "", "5", "a b"]), "format": s.sampled_from(["presto", "sigproc"])}[kind]


def value(path, index):
    kind, nullable, optional = F[path]
    s = st()
    v = good(kind)
    if nullable:
        v = s.one_of(v, v, s.none())
    if optional:
        v = s.one_of(v, s.just("__absent__"))
    return v


def flat():
    """list of [path, value] of a valid configuration"""
    s = st()

    def build(n):
        keys = []
        for p in PATHS:
            keys += [p] if "*" not in p else [tuple(i if q == "*" else q for q in p) for i in range(n)]
        return s.tuples(*[value(tuple("*" if isinstance(q, int) else q for q in p), None).map(lambda v, p=p: [list(p), v]) for p in keys])
    return s.integers(1, 3).flatmap(build).map(list)


def assemble(items):
    out = {k: {} for k in ("data", "dmselect", "dereddening", "clustering", "harmonic_flagging", "candidate_filters")}
    n = 1 + max(p[1] for p, v in items if p[0] == "ranges")
    out["ranges"] = [{"ffa_search": {}, "find_peaks": {}, "candidates": {}} for _ in range(n)]
    for p, v in items:
        if v == "__absent__":
            continue
        node = out
        for q in p[:-1]:
            node = node[q]
        node[p[-1]] = v
    return out


def corruption():
    s = st()
    return s.one_of(
        case(op=s.just("none")),
        case(op=s.just("blank-section")),
        case(op=s.just("value"), path=s.sampled_from([list(p) for p in PATHS]), i=s.integers(0, 100), r=s.integers(0, 2)),
        case(op=s.just("value"), path=s.sampled_from([list(p) for p in PATHS]), i=s.integers(0, 100), r=s.integers(0, 2)),
        case(op=s.just("null"), path=s.sampled_from([list(p) for p in PATHS]), r=s.integers(0, 2)),
        case(op=s.just("missing"), path=s.sampled_from([list(p) for p in PATHS]), r=s.integers(0, 2)),
        case(op=s.just("missing-section"), path=s.sampled_from([list(p) for p in SECTIONS if p and p[-1] != "*"] + [["ranges"]]), r=s.integers(0, 2)),
        case(op=s.just("section"), path=s.sampled_from([list(p) for p in SECTIONS] + [["ranges"]]), r=s.integers(0, 2), i=s.integers(0, 100)),
        case(op=s.just("unknown"), path=s.sampled_from([list(p) for p in SECTIONS]), r=s.integers(0, 2), key=s.sampled_from(["foo", "Name", "period", "smin ", "bins", "dm_max", "fmin", "radius", "subints", "maximum", "processes", "min"]), v=s.sampled_from([None, 1, 1.5, "a", {}])),
    )


def gen_conf():
    return case(items=flat(), bad=corruption(), yaml=st().booleans())


def locate(path, n, r):
    return [r % n if q == "*" else q for q in path]


def apply(conf, bad):
    """corrupts conf; returns (conf, still valid, label)"""
    op = bad["op"]
    if op == "none":
        return conf, True, "valid"
    n = len(conf["ranges"])
    if op == "blank-section":
        conf["ranges"][0]["find_peaks"] = None
        return conf, True, "valid-blank-section"
    path = tuple(bad["path"])
    where = locate(path, n, bad["r"])
    parent = conf
    for q in where[:-1]:
        parent = parent[q]
    if op == "value":
        kind, nullable, optional = F[path]
        pool = BAD[kind]
        parent[where[-1]] = copy.deepcopy(pool[bad["i"] % len(pool)])
        return conf, False, "value-" + kind
    if op == "null":
        parent[where[-1]] = None
        return conf, F[path][1], "null-" + ("allowed" if F[path][1] else "refused")
    if op == "missing":
        parent.pop(where[-1], None)
        return conf, F[path][2], "missing-" + ("optional" if F[path][2] else "required")
    if op == "missing-section":
        parent.pop(where[-1])
        return conf, False, "missing-section"
    if op == "section":
        pool = [None, [], "abc", 3, 1.5, True, [{}], {"a": 1}]
        v = pool[bad["i"] % len(pool)]
        if path and path[-1] == "find_peaks" and v is None:
            v = []
        if not path:
            return v, False, "not-a-mapping"
        parent[where[-1]] = v
        return conf, False, "section"
    if op == "unknown":
        node = conf
        for q in where:
            node = node[q]
        known = set(p[len(path)] for p in F if p[:len(path)] == path)
        if bad["key"] in known:
            raise Skip("key is known in this section")
        node[bad["key"]] = bad["v"]
        return conf, False, "unknown-key"


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or isinstance(a, str):
        return type(a) is type(b) and a == b
    return a == b


def run_conf(c):
    import yaml
    from riptide.pipeline import Pipeline
    from riptide.pipeline.config_validation import InvalidPipelineConfig
    conf, ok, label = apply(assemble(c["items"]), c["bad"])
    ref = copy.deepcopy(conf)
    if c["yaml"]:
        with scratch_dir() as d:
            p = os.path.join(d, "c.yaml")
            with open(p, "w") as f:
                yaml.safe_dump(conf, f)
            if ok:
                pl = call(Pipeline.from_yaml_config, p)
            else:
                must_raise((InvalidPipelineConfig,), Pipeline.from_yaml_config, p)
    elif ok:
        pl = call(Pipeline, conf)
    else:
        must_raise((InvalidPipelineConfig,), Pipeline, conf)
    require(repr(conf) == repr(ref), "the configuration given was modified")
    if ok:
        exp = copy.deepcopy(ref)
        for r in exp["ranges"]:
            if r["find_peaks"] is None:
                r["find_peaks"] = {}
        got = copy.deepcopy(pl.config)
        for r in got["ranges"]:
            if r["find_peaks"] is None:
                r["find_peaks"] = {}
        require(equal(exp, got), f"validated configuration {got}, the input is {exp}")
    return [label, "yaml" if c["yaml"] else "dict"]


# ---------------------------------------------------------------- search ranges

def gen_ranges():
    s = st()
    return case(n=s.integers(1, 4), pmin=s.sampled_from([0.25, 0.5, 1.0, 0.1]), grow=s.lists(s.sampled_from([2.0, 4.0, 1.5, 3.0]), min_size=4, max_size=4), bins=s.lists(s.integers(8, 600), min_size=4, max_size=4), cand=s.lists(s.one_of(s.none(), s.integers(8, 1200)), min_size=4, max_size=4),
                tsamps=s.lists(s.sampled_from([2.0 ** -k for k in range(4, 14)] + [1e-3, 1e-4, 6.4e-5]), min_size=1, max_size=4), order=s.sampled_from(["up", "up", "up", "up", "up", "down", "swap", "gap", "overlap", "tinygap"]), tight=s.sampled_from(["no", "no", "search", "cand"]), nudge=often(2, s.just(0.0), s.sampled_from([1e-9, -1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 4e-3])),
                at=s.integers(0, 3), via=s.sampled_from(["function", "prepare", "prepare"]))


def conf_of(ranges, fmt="presto"):
    return {"processes": 1, "data": {"format": fmt, "fmin": None, "fmax": None, "nchans": None}, "dmselect": {"min": None, "max": None, "dmsinb_max": None},
            "dereddening": {"rmed_width": 5.0, "rmed_minpts": 101}, "ranges": ranges, "clustering": {"radius": 0.2},
            "harmonic_flagging": {"denom_max": 100, "phase_distance_max": 1.0, "dm_distance_max": 3.0, "snr_distance_max": 3.0},
            "candidate_filters": {"dm_min": None, "snr_min": None, "remove_harmonics": None, "max_number": None}, "plot_candidates": False}


def run_ranges(c):
    from riptide.pipeline import Pipeline
    from riptide.pipeline.config_validation import InvalidSearchRange, validate_ranges
    from .c18 import write_presto
    n, t = c["n"], max(c["tsamps"])
    edges = [c["pmin"]]
    for g in c["grow"][:n]:
        edges.append(edges[-1] * g)
    rg = []
    for i in range(n):
        lim = max(2, int(edges[i] / t * 0.999))
        b = min(c["bins"][i], lim)
        k = c["cand"][i] or min(b + 16, lim)
        if c["tight"] != "no" and i == c["at"] % n:   # exactly as fine as allowed
            e = int(edges[i] / t)
            if c["tight"] == "search":
                b = max(2, e)
            else:
                k = max(2, e)
        rg.append({"name": f"r{i}", "ffa_search": {"period_min": edges[i], "period_max": edges[i + 1], "bins_min": b, "bins_max": b + 10}, "find_peaks": {}, "candidates": {"bins": k, "subints": None}})
    lab = [c["order"], c["via"]]
    i = c["at"] % n
    ts_all = c["tsamps"]
    if c["tight"] != "no" and c["nudge"]:       # then slightly coarser or finer
        ts_all = [v * (1 + c["nudge"]) for v in ts_all]
        t = max(ts_all)
        lab.append("nudged")
    if c["order"] == "down":
        rg = rg[::-1]
    elif c["order"] == "swap" and n > 1:
        rg[0], rg[-1] = rg[-1], rg[0]
    elif c["order"] == "gap":
        rg[i]["ffa_search"]["period_min"] *= 1.1
    elif c["order"] == "overlap":
        rg[i]["ffa_search"]["period_max"] *= 1.1
    elif c["order"] == "tinygap":
        rg[i]["ffa_search"]["period_max"] *= 1.000001
    why = []
    for r in rg:
        p = r["ffa_search"]["period_min"]
        for b, w in ((r["ffa_search"]["bins_min"], "search"), (r["candidates"]["bins"], "candidates")):
            if abs(b * t - p) < 1e-12 * p and t not in [2.0 ** -k for k in range(4, 14)]:
                raise Skip("sampling equal to the limit to rounding")
            if b * t > p:
                why.append(w)
            elif b * t == p:
                lab.append("exactly-fits")
    for a, b in zip(rg, rg[1:]):
        if a["ffa_search"]["period_max"] != b["ffa_search"]["period_min"]:
            why.append("contiguity")
    ref = copy.deepcopy(rg)
    if c["via"] == "function":
        if why:
            must_raise((InvalidSearchRange,), validate_ranges, rg, t)
        else:
            call(validate_ranges, rg, t)
        require(rg == ref, "ranges modified")
    else:
        with scratch_dir() as d:
            files = [write_presto(d, f"f{j}", float(j), ts) for j, ts in enumerate(ts_all)]
            pl = call(Pipeline, conf_of(rg))
            if why:   # before any search: there are no data files to search here
                must_raise((InvalidSearchRange,), pl.process, files, d)
            else:
                call(pl.prepare, files)
    return lab + (sorted(set(why)) or ["accepted"])


def base(n=2):
    std = {"int": 7, "pos": 2.5, "posint": 2, "num": 3.5, "gt1": 1.5, "unit": 0.3, "bool": True, "str": "x", "format": "presto"}
    items = []
    for p in PATHS:
        for q in ([p] if "*" not in p else [tuple(i if q == "*" else q for q in p) for i in range(n)]):
            items.append([list(q), std[F[p][0]]])
    return items


def every_corruption():
    out = []
    for p in PATHS:
        out += [{"op": "value", "path": list(p), "i": i, "r": 1} for i in range(len(BAD[F[p][0]]))]
        out += [{"op": "null", "path": list(p), "r": 1}, {"op": "missing", "path": list(p), "r": 1}]
    for p in [list(p) for p in SECTIONS] + [["ranges"]]:
        out += [{"op": "section", "path": p, "i": i, "r": 1} for i in range(8)]
        if p and p[-1] != "*":
            out.append({"op": "missing-section", "path": p, "r": 1})
    out += [{"op": "unknown", "path": list(p), "r": 1, "key": "foo", "v": 1} for p in SECTIONS] + [{"op": "none"}, {"op": "blank-section"}]
    return [{"items": base(), "bad": b, "yaml": False} for b in out]


PROP = Prop("C19", [
    Sub("config", gen_conf, run_conf, 1500, 25000, "every single-field corruption of one configuration, then generated valid configurations with 0 or 1 corruption, as dict or YAML file; all distinct cases are non-trivial", shards=(4, 8), examples=every_corruption()),
    Sub("ranges", gen_ranges, run_ranges, 1200, 15000, "1 to 4 ranges against input sampling times, through validate_ranges or Pipeline.prepare / process; all distinct cases are non-trivial", shards=(2, 8)),
], assumptions=["numeric strings and booleans in place of numbers are not decided by the documentation and not generated"])
