import copy, filecmp, json, math, os
import numpy as np
from ..core import *
from . import c18, c19, c21


def gen():
    s = st()
    rng = case(grow=s.floats(1.15, 2.2), db=s.integers(0, 4), fpmin=s.one_of(s.none(), s.integers(1, 12)), ducy=s.one_of(s.none(), s.sampled_from([0.05, 0.2, 0.45])), wtsp=s.one_of(s.none(), s.sampled_from([1.3, 2.0])),
               smin=s.one_of(s.none(), s.sampled_from([5.0, 7.0, 9.5])), segwidth=s.one_of(s.none(), s.sampled_from([3.0, 8.0])), nstd=s.one_of(s.none(), s.sampled_from([4.0, 7.5])), clrad=s.one_of(s.none(), s.sampled_from([0.05, 0.5])), polydeg=s.one_of(s.none(), s.integers(1, 2)), cand=s.integers(4, 16), sub=s.one_of(s.none(), s.integers(1, 12)))
    return case(dms=s.lists(s.sampled_from([0.0, 1.5, 3.25, 10.0, 10.5, 47.125, 100.0]), min_size=1, max_size=5, unique=True), perm=seeds(), tsamp=s.sampled_from([1e-3, 2.56e-4, 0.01]), n=s.integers(1500, 6000), short=s.lists(s.integers(0, 5), min_size=7, max_size=7),
                bmin=s.integers(16, 40), twins=often(3, s.just(False), s.just(True)), edge=often(7, s.just(False), s.just(True)), dead=often(5, s.none(), s.tuples(s.integers(0, 4), s.sampled_from([0.0, 7.0, -1e4])).map(list)), bare=often(2, s.just(False), s.just(True)), skip=s.floats(1.001, 1.7), ranges=s.lists(rng, min_size=1, max_size=3), u=finite(0.05, 0.95), amp=often(7, s.floats(0.5, 3.0), s.just(0.0)), best=s.integers(0, 6), width=s.floats(0.02, 0.15), red=s.booleans(), seed=seeds(),
                fmt=s.sampled_from(["presto", "sigproc"]), procs=s.tuples(s.integers(1, 4), s.integers(1, 4)).map(list), dmin=often(2, s.none(), s.sampled_from([0.0, 1.0, 3.25])), dmax=often(2, s.none(), s.sampled_from([3.25, 20.0, 100.0])), cap=often(3, s.none(), s.sampled_from([5.0, 40.0])),
                band=s.sampled_from([0.02, 0.3]), radius=s.sampled_from([0.1, 0.2, 1.0]), maxn=s.one_of(s.none(), s.integers(1, 5)), variant=s.sampled_from(["order", "procs", "cli", "format", "both"]), rmed=s.sampled_from(["scrunched", "exact"]), plot=s.sampled_from([False] * 15 + [True]))


def setting(c):
    t = c["tsamp"]
    edges = [t * c["bmin"] * (1.0 if c["edge"] else c["skip"])]     # or with bins exactly as long as the samples
    rg = []
    for i, r in enumerate(c["ranges"]):
        edges.append(edges[-1] * r["grow"])
        fs = {"period_min": edges[i], "period_max": edges[i + 1], "bins_min": c["bmin"], "bins_max": c["bmin"] + r["db"]}
        for a, b in (("fpmin", "fpmin"), ("ducy_max", "ducy"), ("wtsp", "wtsp")):
            if r[b] is not None:
                fs[a] = r[b]
        fp = {"minseg": 6}
        for a in ("smin", "segwidth", "nstd", "clrad", "polydeg"):
            if r[a] is not None:
                fp[a] = r[a]
        rg.append({"name": f"r{i}", "ffa_search": fs, "find_peaks": fp, "candidates": {"bins": c["bmin"] if c["edge"] and i == 0 else min(r["cand"], c["bmin"]), "subints": r["sub"]}})
    conf = c19.conf_of(rg, c["fmt"])
    conf["processes"] = c["procs"][0]
    conf["dmselect"] = {"min": c["dmin"], "max": c["dmax"], "dmsinb_max": c["cap"]}
    conf["dereddening"] = {"rmed_width": t * 401, "rmed_minpts": 101 if c["rmed"] == "exact" else 21}
    if c["rmed"] == "exact":
        conf["dereddening"]["rmed_width"] = t * 151
    conf["clustering"]["radius"] = c["radius"]
    conf["candidate_filters"]["max_number"] = c["maxn"]
    conf["plot_candidates"] = c["plot"]
    return conf, edges


BAND = dict(fbot=1200.0, nchan=64)


def write(c, d, fmt, edges):
    """one file per DM; the signal is brightest at one of them"""
    t = c["tsamp"]
    P = edges[0] * (edges[-1] / edges[0]) ** (0.0 if c["edge"] else c["u"])
    cbw = BAND["fbot"] * c["band"] / BAND["nchan"]
    files = {}
    for i, dm in enumerate(c["dms"]):
        n = c["n"] - c["short"][i] * 17
        rng = np.random.Generator(np.random.PCG64([c["seed"], i]))
        x = rng.normal(size=n)
        ph = (np.arange(n) * t / P + 0.3) % 1.0
        a = c["amp"] / (1 + 0.5 * abs(i - c["best"] % len(c["dms"])))
        x += a * np.exp(-0.5 * ((ph - 0.5) / (c["width"] / 2.355)) ** 2)
        if c["red"]:
            x += 3 * np.sin(np.arange(n) / n * 5.0) + 100
        if c.get("dead") and c["dead"][0] == i:     # no signal from the receiver
            x[:] = c["dead"][1]
        name = f"f_{fmt}_DM{dm:.2f}"
        where = d
        if c.get("twins"):      # files with the same name, in a directory each
            where, name = os.path.join(d, f"{fmt}-{i}"), "trial"
            os.makedirs(where, exist_ok=True)
        files[dm] = c18.write_presto(where, name, dm, t, cbw=cbw, x=x, **BAND) if fmt == "presto" else c18.write_sigproc(where, name, dm, t, x=x, bare=c["bare"])
    return files, (BAND["fbot"], BAND["fbot"] + BAND["nchan"] * cbw, BAND["nchan"])


def library_peaks(fname, fmt, conf):
    import riptide
    ts = (riptide.TimeSeries.from_presto_inf if fmt == "presto" else riptide.TimeSeries.from_sigproc)(fname)
    out = []
    for r in conf["ranges"]:
        _, pg = call(riptide.ffa_search, ts, deredden=True, rmed_width=conf["dereddening"]["rmed_width"], rmed_minpts=conf["dereddening"]["rmed_minpts"], already_normalised=False, **r["ffa_search"])
        out += [tuple(p) for p in call(riptide.find_peaks, pg, **r["find_peaks"])[0]]
    return out


def process(conf, files, out, cli=None):
    """-> Pipeline object (None for the command line)"""
    from riptide.pipeline import Pipeline
    os.mkdir(out)
    with quiet():
        if cli is None:
            pl = call(Pipeline, copy.deepcopy(conf))
            call(pl.process, list(files), out)
            return pl
        import yaml
        from riptide.pipeline.pipeline import get_parser, run_program
        path = out + ".yaml"
        with open(path, "w") as f:
            yaml.safe_dump(conf, f)
        call(run_program, get_parser().parse_args(["-c", path, "-o", out, "--log-level", "WARNING"] + list(files)))


def compare(a, b, jsons=True):
    fa, fb = sorted(os.listdir(a)), sorted(os.listdir(b))
    require(fa == fb, f"output files {fa} and {fb}")
    for n in fa:
        if n.endswith(".png") or (n.endswith(".json") and not jsons):
            continue
        with open(os.path.join(a, n), "rb") as f, open(os.path.join(b, n), "rb") as g:
            x, y = f.read(), g.read()
        require(x == y, f"{n} differs:\n{x[:600]!r}\n{y[:600]!r}")


def run(c):
    conf, edges = setting(c)
    with scratch_dir() as d:
        d = os.path.realpath(d)
        files, band = write(c, d, c["fmt"], edges)
        if c["fmt"] == "sigproc" or c["variant"] == "format":
            conf["data"].update(fmin=band[0], fmax=band[1], nchans=band[2])
        rng = np.random.Generator(np.random.PCG64(c["perm"]))
        order = [files[c["dms"][i]] for i in rng.permutation(len(c["dms"]))]
        # which trials are to be searched
        lo = c["dmin"] if c["dmin"] is not None else min(c["dms"])
        hi = c["dmax"] if c["dmax"] is not None else max(c["dms"])
        if c["cap"] is not None:
            from astropy.coordinates import SkyCoord
            hi = min(hi, c["cap"] / abs(math.sin(SkyCoord(180.0, -30.0, unit="deg").galactic.b.rad)))
        wmin = min(r["ffa_search"]["period_min"] / r["ffa_search"]["bins_min"] for r in conf["ranges"])
        exp, amb, *_ = c18.model(c["dms"], lo, hi, *band, wmin)
        if amb:
            raise Skip("DM selection hinges on rounding")
        a = os.path.join(d, "out-a")
        if not exp:
            from riptide.pipeline import Pipeline
            with quiet():
                os.mkdir(a)
                must_raise((ValueError,), call_plain, Pipeline, conf, order, a)
            require(os.listdir(a) == [], "files written")
            return ["no-dm", "trivial"]
        pl = process(conf, order, a)
        want = sorted(p for dm in exp for p in library_peaks(files[dm], c["fmt"], conf))
        got = sorted(tuple(p) for p in pl.peaks)
        require(len(got) == len(want), f"the pipeline finds {len(got)} peaks, the library {len(want)} in the trials {exp} (searched: {list(map(float, pl.dmiter.selected_dms))})")
        require(got == want, f"peaks of the pipeline and of the library differ, first: {next(((g, w) for g, w in zip(got, want) if g != w), None)}")
        have = sorted(os.listdir(a))
        if not want:
            require(have == [], f"nothing found, but {have} written")
        else:
            n = len(pl.candidates)
            require(n == min(len(pl.clusters), c["maxn"] or 10 ** 9), f"{n} candidates, {len(pl.clusters)} clusters, at most {c['maxn']} wanted")
            require(have == sorted(["peaks.csv", "clusters.csv", "candidates.csv"] + [f"candidate_{i:04d}.{e}" for i in range(n) for e in (["json", "png"] if c["plot"] else ["json"])]), f"files {have}")
            c21.check_candidates(pl, conf, conf["ranges"], files, build=False)
        # again, scheduled differently
        v = c["variant"]
        b = os.path.join(d, "out-b, other")
        conf2, order2, cli, fmt2 = copy.deepcopy(conf), list(order), None, c["fmt"]
        if v in ("order", "both"):
            order2 = order2[::-1] if c["perm"] % 2 else sorted(order2)
        if v in ("procs", "both"):
            conf2["processes"] = c["procs"][1] if c["procs"][1] != c["procs"][0] else c["procs"][0] + 1
        if v == "format":
            fmt2 = "presto" if c["fmt"] == "sigproc" else "sigproc"
            conf2["data"]["format"] = fmt2
            order2 = list(write(c, d, fmt2, edges)[0].values())
        process(conf2, order2, b, cli=True if v == "cli" else None)
        compare(a, b, jsons=v != "format")
        return [v, "found" if want else "nothing", "dms=%d" % min(len(exp), 3), c["fmt"]] + (["trivial"] if not want and v != "cli" else [])


def call_plain(P, conf, files, out):
    P(copy.deepcopy(conf)).process(list(files), out)


# ---------------------------------------------------------------- the command rffa

def gen_cli():
    s = st()
    return case(dms=s.lists(s.sampled_from([0.0, 1.5, 10.0]), min_size=1, max_size=3, unique=True), amp=s.sampled_from([2.0, 3.0]), best=s.integers(0, 3), seed=seeds(), u=finite(0.1, 0.9), n=s.integers(1500, 2500), tsamp=s.sampled_from([1e-3, 0.01]), bmin=s.integers(16, 24), grow=s.floats(1.2, 1.6), procs=s.integers(1, 3), fmt=s.sampled_from(["presto", "sigproc"]),
                plot=s.sampled_from([False] * 5 + [True]), where=s.sampled_from(["relative", "absolute", "cwd"]), files=s.sampled_from(["relative", "absolute"]), level=s.sampled_from([None, "DEBUG", "INFO", "WARNING"]), log=s.booleans(), timings=s.booleans(), yaml=s.sampled_from(["block", "flow"]), abbr=s.booleans(), old=s.booleans())


def run_cli(c):
    import yaml
    from . import c30
    with scratch_dir() as d:
        d = os.path.realpath(d)
        src, out, cwd = (os.path.join(d, v) for v in ("data", "out put", "work"))
        for v in (src, out, cwd):
            os.mkdir(v)
        conf, files = c30.world(c, src)
        conf["plot_candidates"] = c["plot"]
        names = list(files.values())
        pl = process(conf, names, os.path.join(d, "ref"))
        with open(os.path.join(cwd, "my conf.yml"), "w") as f:
            yaml.safe_dump(conf, f, default_flow_style=c["yaml"] == "flow")
        argv = ["rffa", "-c" if c["abbr"] else "--config", "my conf.yml"]
        if c["where"] != "cwd":
            argv += ["-o" if c["abbr"] else "--outdir", out if c["where"] == "absolute" else os.path.relpath(out, cwd)]
        if c["level"]:
            argv += ["--log-level", c["level"]]
        log = os.path.join(d, "log.txt")
        if c["log"]:
            argv += ["-f" if c["abbr"] else "--logfile", log]
            if c["old"]:
                with open(log, "w") as f:
                    f.write("old contents\n")
        if c["timings"]:
            argv.append("--log-timings")
        argv += [os.path.relpath(f, cwd) if c["files"] == "relative" else f for f in names]

        def work():
            import sys, logging
            logging.getLogger().handlers[:] = []     # as in a new process
            logging.disable(logging.NOTSET)
            os.chdir(cwd)
            import riptide.pipeline.pipeline as m
            sys.argv = argv
            with quiet():
                m.main()
        r = c30.isolated(work, d, " ".join(argv))
        require(r[0] == "ok" or r == ("exit", 0), f"{argv}: {r}")
        got = out
        if c["where"] == "cwd":
            os.unlink(os.path.join(cwd, "my conf.yml"))
            got = cwd
        compare(os.path.join(d, "ref"), got)
        if c["log"]:
            with open(log) as f:
                text = f.read()
            require("old contents" not in text, "the log file is not overwritten")
            if c["level"] in (None, "DEBUG", "INFO"):
                require(len(text) > 0, "the log file is empty")
        return [c["where"], c["files"]] + ([] if pl.peaks else ["trivial"])


# ---------------------------------------------------------------- in a process of its own

def gen_new():
    s = st()
    return s.tuples(gen_cli(), case(how=surroundings())).map(lambda t: {**t[0], **t[1], "files": "absolute", "where": "absolute"})


def run_new(c):
    import yaml
    from . import c30
    with scratch_dir() as d:
        d = os.path.realpath(d)
        src, out, cwd = (os.path.join(d, v) for v in ("data", "out", "work"))
        for v in (src, out, cwd):
            os.mkdir(v)
        conf, files = c30.world(c, src)
        conf["plot_candidates"] = c["plot"]
        pl = process(conf, list(files.values()), os.path.join(d, "ref"))
        path = os.path.join(d, "conf.yml")
        with open(path, "w") as f:
            yaml.safe_dump(conf, f)
        st, text, err = launch(c["how"], ["rffa", "-c", path, "-o", out, *files.values()], cwd)
        require(st == 0, f"rffa ends with status {st} ({c['how']}): {err[-1500:]}")
        compare(os.path.join(d, "ref"), out)
        require(os.listdir(cwd) == [], f"rffa leaves {os.listdir(cwd)} in the current directory")
        return [c["how"]["start"]] + ([] if pl.peaks else ["trivial"])


PROP = Prop("C22", [
    Sub("end-to-end", gen, run, 400, 6000, "sets of one to five files with or without a signal, searched with one to three ranges, compared with the library file by file, then processed again in another way; non-trivial unless nothing is found (command line: always)", shards=(8, 8)),
    Sub("command", gen_cli, run_cli, 80, 1200, "the command rffa with generated options, paths and working directory, against the library; non-trivial if something is found", shards=(2, 8)),
    Sub("new-process", gen_new, run_new, 24, 300, "the command rffa in a process of its own, started in a generated way (start method of its worker processes, hash seed, time zone, interpreter options, umask, standard input), against the library; non-trivial if something is found", shards=(4, 8)),
], assumptions=["the library search itself is decided by C07-C11"])
