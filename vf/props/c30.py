"""Faults of a pipeline run: it fails loudly and leaves nothing behind, or does not depend on what is broken."""
import copy, hashlib, os, pickle, shutil, signal, sys, time, traceback
import numpy as np
from ..core import *
from . import c18, c19, c21, c22

FAULTS = ["missing-file", "missing-dat", "cut-header", "garbage", "directory", "dat-directory", "coords", "short", "empty", "no-outdir", "outdir-file", "blocked-peaks", "blocked-clusters", "blocked-candidates", "blocked-json", "no-band", "dm-range", "bad-range", "bad-config", "no-yaml", "bad-yaml", "bad-option"]
LATE = ("blocked-peaks", "blocked-clusters", "blocked-candidates", "blocked-json")     # while the products are saved
CLI_ONLY = ("no-yaml", "bad-yaml", "bad-option")


def setting():
    s = st()
    return dict(dms=s.lists(s.sampled_from([0.0, 1.5, 10.0, 47.125]), min_size=1, max_size=3, unique=True), amp=s.sampled_from([2.0, 3.0]), best=s.integers(0, 3), seed=seeds(), u=finite(0.1, 0.9), n=s.integers(1500, 2500), tsamp=s.sampled_from([1e-3, 0.01]), bmin=s.integers(16, 24), grow=s.floats(1.2, 1.6), procs=s.integers(1, 3))


def gen():
    s = st()
    return case(fmt=s.sampled_from(["presto", "sigproc"]), fault=s.sampled_from(FAULTS), which=s.integers(0, 9), cut=finite(0, 1), cli=s.booleans(), again=s.booleans(), others=s.integers(0, 2), plot=s.sampled_from([False] * 7 + [True]), **setting())


def world(c, d):
    """-> configuration, list of files, reference products"""
    full = {"edge": False, "bare": False, "skip": 1.2, "dmin": None, "dmax": None, "cap": None, "radius": 0.2, "maxn": None, "rmed": "scrunched", "band": 0.3, "red": False, "width": 0.1, "short": [0] * 7, "plot": False,
            "ranges": [dict(grow=c["grow"], db=2, fpmin=None, ducy=None, wtsp=None, smin=6.0, segwidth=None, nstd=None, clrad=None, polydeg=None, cand=8, sub=4)] * 2, **c, "procs": [c["procs"]] * 2}
    conf, edges = c22.setting(full)
    files, band = c22.write(full, d, c["fmt"], edges)
    if c["fmt"] == "sigproc":
        conf["data"].update(fmin=band[0], fmax=band[1], nchans=band[2])
    return conf, files


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(r, n), "rb") as f:
                out[os.path.relpath(os.path.join(r, n), d)] = hashlib.sha1(f.read()).hexdigest()
        for n in ds:
            out[os.path.relpath(os.path.join(r, n), d)] = "directory"
    return out


def live(pg):
    n = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    q = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            if int(q[2]) == pg and q[0] != "Z":
                n.append(int(p))
    return n


def isolated(fn, d, what, timeout=100.0):
    """fn() in a process group of its own; -> ("ok", result), ("raised", exception name, text) or ("exit", status)."""
    path = os.path.join(d, "outcome")
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            fd = os.open(os.path.join(d, "log"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(fd, 1); os.dup2(fd, 2)
            for q in (signal.SIGALRM, signal.SIGTERM, signal.SIGINT):
                signal.signal(q, signal.SIG_DFL)
            try:
                r = ("ok", fn())
            except SystemExit as e:
                r = ("exit", 0 if e.code is None else e.code if isinstance(e.code, int) else 1)
            except MemoryError:
                r = ("memory",)
            except Exception as e:
                r = ("raised", type(e).__name__, "".join(traceback.format_exception(e))[-1500:])
                del e
            with open(path, "wb") as f:
                pickle.dump(r, f)
            sys.stdout.flush(); sys.stderr.flush()
            # what the end of the interpreter does
            import gc, multiprocessing.util
            gc.collect()
            multiprocessing.util._exit_function()
        except BaseException:
            traceback.print_exc()
            code = 77
        finally:
            os._exit(code)
    end = time.time() + timeout
    done = 0
    while not done and time.time() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if not done:
            time.sleep(0.005)

    def sweep():
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    if not done:
        sweep()
        os.waitpid(pid, 0)
        raise Violation(f"{what}: still running after {timeout:.0f} s")
    end = time.time() + 15
    while live(pid) and time.time() < end:
        time.sleep(0.02)
    left = live(pid)
    if left:
        sweep()
        raise Violation(f"{what}: {len(left)} worker processes still running after the end of the run")
    require(os.WIFEXITED(status), f"{what}: the process died, status {status}")
    if os.WEXITSTATUS(status):
        with open(os.path.join(d, "log")) as f:
            raise RuntimeError(f.read()[-3000:])
    with open(path, "rb") as f:
        r = pickle.load(f)
    os.unlink(path)
    if r[0] == "memory":
        raise MemoryError
    return r


def by_api(conf, files, out):
    from riptide.pipeline import Pipeline
    with quiet():
        Pipeline(copy.deepcopy(conf)).process(list(files), out)
    return None


def by_cli(d, conf, files, out, extra=(), path=None):
    import yaml
    from riptide.pipeline import pipeline
    if path is None:
        path = os.path.join(d, "conf.yaml")
        with open(path, "w") as f:
            yaml.safe_dump(conf, f)
    sys.argv = ["rffa", "-c", path, "-o", out, "--log-level", "WARNING", *extra, *files]
    with quiet():
        pipeline.main()


def run(c):
    fault = c["fault"]
    if fault in ("missing-dat", "dat-directory") and c["fmt"] == "sigproc":
        fault = "missing-file"
    if fault == "no-band" and c["fmt"] == "presto":
        fault = "bad-config"
    if fault == "coords" and len(c["dms"]) < 2:
        fault = "directory"
    cli = c["cli"] or fault in CLI_ONLY
    with scratch_dir() as d:
        d = os.path.realpath(d)
        src = os.path.join(d, "data")
        os.mkdir(src)
        conf, files = world(c, src)
        dms = sorted(files)
        ref = os.path.join(d, "ref")
        pl = c22.process(conf, list(files.values()), ref)
        found = len(pl.peaks)
        cands = len(pl.candidates)
        selected = [float(v) for v in pl.dmiter.selected_dms]
        del pl
        if not found and (fault in LATE or not cli and fault in ("no-outdir", "outdir-file")):
            return ["nothing-found", "trivial"]
        # ------------------------------------------------ break something
        bad, names, out, path, extra = copy.deepcopy(conf), list(files.values()), os.path.join(d, "out"), None, []
        os.mkdir(out)
        dm = selected[c["which"] % len(selected)]
        f = files[dm]
        saved = os.path.join(d, "saved")
        shutil.copytree(src, saved)
        dat = f[:-4] + ".dat" if c["fmt"] == "presto" else f
        if fault == "missing-file":
            os.unlink(f)
        elif fault == "missing-dat":
            os.unlink(dat)
        elif fault == "cut-header":
            head = open(f, "rb").read()
            n = int((len(head) if c["fmt"] == "presto" else head.index(b"HEADER_END") + 9) * 0.6 * c["cut"])
            with open(f, "wb") as g:
                g.write(head[:n])
        elif fault == "garbage":
            with open(f, "wb") as g:
                g.write(np.random.Generator(np.random.PCG64(c["seed"])).bytes(int(1 + 3000 * c["cut"])))
        elif fault in ("directory", "dat-directory"):
            q = f if fault == "directory" else dat
            os.unlink(q)
            os.mkdir(q)
        elif fault == "coords":
            os.unlink(f)
            x = np.zeros(c["n"])
            if c["fmt"] == "presto":
                c18.write_presto(src, os.path.basename(f)[:-4], dm, c["tsamp"], raj="12:00:01.0000", x=x, **dict(c22.BAND, cbw=c22.BAND["fbot"] * 0.3 / c22.BAND["nchan"]))
            else:
                c18.write_sigproc(src, os.path.basename(f)[:-4], dm, c["tsamp"], ra=120001.0, x=x)
        elif fault in ("short", "empty"):
            n = 0 if fault == "empty" else 4 * int(conf["ranges"][0]["ffa_search"]["period_min"] / c["tsamp"] * c["cut"] * 0.5)
            size = os.path.getsize(dat)
            os.truncate(dat, n if c["fmt"] == "presto" else size - 4 * c["n"] + n)
        elif fault == "no-outdir":
            os.rmdir(out)
        elif fault == "outdir-file":
            os.rmdir(out)
            with open(out, "w") as g:
                g.write("x")
        elif fault in LATE:
            have = sorted(n for n in os.listdir(ref) if n.startswith("candidate_"))
            name = {"blocked-peaks": "peaks.csv", "blocked-clusters": "clusters.csv", "blocked-candidates": "candidates.csv", "blocked-json": (have or ["peaks.csv"])[c["which"] % max(1, len(have))]}[fault]
            if name == "candidates.csv" and not cands:
                name = "peaks.csv"
            os.mkdir(os.path.join(out, name))
        elif fault == "no-band":
            bad["data"][["fmin", "fmax", "nchans"][c["which"] % 3]] = None
        elif fault == "dm-range":
            bad["dmselect"]["min"] = max(dms) + 1.0
            bad["dmselect"]["max"] = max(dms) + 2.0
        elif fault == "bad-range":   # finer than the sampling time
            r = bad["ranges"][c["which"] % 2]
            r["ffa_search"]["bins_min"] = r["ffa_search"]["bins_max"] = int(r["ffa_search"]["period_min"] / c["tsamp"]) + 5
        elif fault == "bad-config":
            [lambda: bad.update(processes=0), lambda: bad["clustering"].update(radius=-1.0), lambda: bad["ranges"].clear(), lambda: bad.pop("dereddening"), lambda: bad["data"].update(format="fits"), lambda: bad["ranges"][1]["ffa_search"].update(period_min=1e9)][c["which"] % 6]()
        elif fault == "no-yaml":
            path = os.path.join(d, "none.yaml")
        elif fault == "bad-yaml":
            path = os.path.join(d, "bad.yaml")
            with open(path, "w") as g:
                g.write(["", "a: [1, 2", "- 1\n- 2\n", "processes: 1\n\t x: 2", "42"][c["which"] % 5])
        elif fault == "bad-option":
            extra = [["--log-level", "LOUD"], ["--nothing"], ["-f"], ["-o", os.path.join(d, "nowhere")]][c["which"] % 4]
            if extra == ["-f"]:
                names = []   # no input file at all
                extra = []
        others = {}
        if os.path.isdir(out):
            for i in range(c["others"]):
                n = ["candidate_9000.json", "notes.txt"][i]
                with open(os.path.join(out, n), "w") as g:
                    g.write("mine")
        before_out, before_src = tree(out) if os.path.isdir(out) else None, tree(src)
        what = f"{'rffa' if cli else 'Pipeline.process()'} with {fault}"
        r = isolated((lambda: by_cli(d, bad, names, out, extra, path)) if cli else (lambda: by_api(bad, names, out)), d, what)
        if cli:
            require(not (r[0] == "ok" or r[0] == "exit" and r[1] == 0), f"{what} (DM {dm}, selected {selected}) ends with exit status 0; files written: {sorted(os.listdir(out)) if os.path.isdir(out) else None}")
        else:
            require(r[0] == "raised", f"{what} (DM {dm}, selected {selected}) raises nothing: {r}; files written: {sorted(os.listdir(out)) if os.path.isdir(out) else None}")
        require(tree(src) == before_src, f"{what}: input files were changed")
        if fault not in LATE:
            after = tree(out) if os.path.isdir(out) else None
            require(after == before_out, f"{what}: fails but writes {sorted(set(after or {}) ^ set(before_out or {}))}")
        else:
            require(all(tree(out).get(k) == v for k, v in before_out.items()), f"{what}: other files of the output directory were changed")
        # ------------------------------------------------ repair it and try again
        if c["again"]:
            shutil.rmtree(src)
            shutil.copytree(saved, src)
            if os.path.isfile(out):
                os.unlink(out)
            os.makedirs(out, exist_ok=True)
            for n in os.listdir(out):
                if os.path.isdir(os.path.join(out, n)):
                    os.rmdir(os.path.join(out, n))
            r = isolated((lambda: by_cli(d, conf, list(files.values()), out)) if cli else (lambda: by_api(conf, list(files.values()), out)), d, what + ", repaired")
            require(r[0] == "ok" or r == ("exit", 0), f"{what}, repaired: {r}")
            for n in ("candidate_9000.json", "notes.txt")[:c["others"]]:
                if before_out and n in before_out:
                    with open(os.path.join(out, n)) as g:
                        require(g.read() == "mine", f"{n} of the output directory was changed")
                    os.unlink(os.path.join(out, n))
            c22.compare(ref, out)
        return [fault, "cli" if cli else "api", "found" if found else "nothing"]


# ---------------------------------------------------------------- one Pipeline object, before and after a failure

def gen_recover():
    s = st()
    return case(fmt=s.sampled_from(["presto", "sigproc"]), fault=s.sampled_from(["missing-file", "truncated", "no-outdir", "blocked"]), which=s.integers(0, 9), first=s.booleans(), **setting())


def run_recover(c):
    from riptide.pipeline import Pipeline
    with scratch_dir() as d:
        d = os.path.realpath(d)
        src = os.path.join(d, "data")
        os.mkdir(src)
        conf, files = world(c, src)
        ref, out = os.path.join(d, "ref"), os.path.join(d, "out")
        pl = c22.process(conf, list(files.values()), ref)
        found = len(pl.peaks)
        selected = [float(v) for v in pl.dmiter.selected_dms]

        def work():
            with quiet():
                p = Pipeline(copy.deepcopy(conf))
                os.mkdir(out)
                if c["first"]:
                    p.process(list(files.values()), out)
                    shutil.rmtree(out)
                    os.mkdir(out)
                f = files[selected[c["which"] % len(selected)]]
                dat = f[:-4] + ".dat" if c["fmt"] == "presto" else f
                keep = open(dat, "rb").read()
                bad = out
                if c["fault"] == "missing-file":
                    os.unlink(dat)
                elif c["fault"] == "truncated":
                    os.truncate(dat, len(keep) - 4 * c["n"] + 4 if c["fmt"] == "sigproc" else 4)
                elif c["fault"] == "no-outdir":
                    bad = os.path.join(d, "nowhere")
                elif found:
                    os.mkdir(os.path.join(out, "peaks.csv"))
                failed = False
                try:
                    p.process(list(files.values()), bad)
                except Exception:
                    failed = True
                with open(dat, "wb") as g:
                    g.write(keep)
                shutil.rmtree(out)
                os.mkdir(out)
                p.process(list(files.values()), out)
                return failed
        r = isolated(work, d, f"a Pipeline used again after {c['fault']}")
        require(r[0] == "ok", f"a Pipeline used again after {c['fault']}: {r}")
        require(r[1] or not found, f"no exception for {c['fault']}")
        try:
            c22.compare(ref, out)
        except Violation as e:
            raise Violation(f"a Pipeline used again after a failure ({c['fault']}): {e}")
        return [c["fault"]] + ([] if found else ["trivial"])


# ---------------------------------------------------------------- what a run does not depend on

def gen_needless():
    s = st()
    q = setting()
    q["dms"] = s.lists(s.sampled_from([0.0, 1.5, 3.25, 10.0, 10.5, 47.125, 100.0]), min_size=2, max_size=5, unique=True)
    return case(fmt=s.sampled_from(["presto", "presto", "sigproc"]), keep=s.integers(1, 4), lo=s.booleans(), how=s.sampled_from(["missing", "garbage", "nan"]), stale=s.sampled_from([0, 1, 3]), cli=s.booleans(), plot=s.sampled_from([False] * 7 + [True]), **q)


def run_needless(c):
    """Data files of DM trials that are not selected, earlier products and other files in the output directory do not matter."""
    with scratch_dir() as d:
        d = os.path.realpath(d)
        src, out = os.path.join(d, "data"), os.path.join(d, "out")
        os.mkdir(src)
        conf, files = world(c, src)
        dms = sorted(files)
        k = min(c["keep"], len(dms) - 1)
        if c["lo"]:
            conf["dmselect"]["min"] = dms[-k]
        else:
            conf["dmselect"]["max"] = dms[k - 1]
        ref = os.path.join(d, "ref")
        pl = c22.process(conf, list(files.values()), ref)
        selected = [float(v) for v in pl.dmiter.selected_dms]
        require(all((v >= dms[-k]) if c["lo"] else (v <= dms[k - 1]) for v in selected), f"DM trials {selected} searched, {conf['dmselect']} wanted")
        n = 0
        for v in dms:
            if v not in selected:
                f = files[v]
                n += 1
                if c["fmt"] == "presto" and c["how"] == "missing":
                    os.unlink(f[:-4] + ".dat")
                else:
                    q = f[:-4] + ".dat" if c["fmt"] == "presto" else f
                    raw = bytearray(open(q, "rb").read())
                    rng = np.random.Generator(np.random.PCG64(c["seed"] + n))
                    m = 4 * c["n"]
                    raw[-m:] = np.full(c["n"], np.nan, dtype=np.float32).tobytes() if c["how"] == "nan" else rng.bytes(m)
                    with open(q, "wb") as g:
                        g.write(raw)
        os.mkdir(out)
        for i in range(c["stale"]):
            for q in os.listdir(ref):
                with open(os.path.join(out, q), "w") as g:
                    g.write("something from before\n" * (5000 if i else 1))
        mine = {"notes.txt": "a", "peaks.csv.bak": "b", "candidate_7777.json": "c"}
        for a, b in mine.items():
            with open(os.path.join(out, a), "w") as g:
                g.write(b)
        before = tree(src)
        r = isolated((lambda: by_cli(d, conf, list(files.values()), out)) if c["cli"] else (lambda: by_api(conf, list(files.values()), out)), d, "a run with needless files broken")
        require(r[0] == "ok" or r == ("exit", 0), f"{n} files of DMs not selected ({c['how']}), selected {selected} of {dms}: {r}")
        require(tree(src) == before, "input files were changed")
        for a, b in mine.items():
            with open(os.path.join(out, a)) as g:
                require(g.read() == b, f"{a} was changed")
            os.unlink(os.path.join(out, a))
        c22.compare(ref, out)
        return ["broken=%d" % n, c["how"], "stale" if c["stale"] else "fresh"] + ([] if n or c["stale"] else ["trivial"])


# ---------------------------------------------------------------- candidates that cannot be folded

def gen_unfoldable():
    s = st()
    return case(base=c21.gen(), bad=s.lists(case(dm=s.integers(0, 9), how=s.sampled_from(["long", "short"]), u=finite(0, 1), snr=s.floats(6.0, 300.0)), min_size=1, max_size=3))


def run_unfoldable(c):
    from riptide.pipeline import Pipeline
    from riptide.peak_detection import Peak
    b = c["base"]
    rg, t, lens = c21.setting(b)
    conf = c19.conf_of(copy.deepcopy(rg), "presto")
    conf["processes"] = b["procs"]
    minlen = min(lens[:len(b["dms"])])
    conf["dereddening"] = {"rmed_width": t * (2 * int(0.2 * (minlen - 2)) + 1), "rmed_minpts": 5}
    with scratch_dir() as d:
        files = {}
        for i, dm in enumerate(b["dms"]):
            files[dm] = c18.write_presto(d, f"f{i}", dm, t, x=make_array({"k": "noise", "n": lens[i], "s": b["seed"] ^ i, "a": 1.0}))
        good = c21.build_peaks(b, rg, float(np.median([v * t for v in lens[:len(b["dms"])]])), b["dms"], None)
        bad = []
        for q in c["bad"]:
            i = q["dm"] % len(b["dms"])
            P = lens[i] * t * (1.01 + q["u"]) if q["how"] == "long" else rg[0]["candidates"]["bins"] * t * 0.9 * (0.1 + 0.9 * q["u"])
            bad.append(Peak(period=P, freq=1 / P, width=1, ducy=0.1, iw=0, ip=0, snr=q["snr"], dm=b["dms"][i]))

        def go(peaks, out):
            os.mkdir(out)
            with quiet():
                pl = call(Pipeline, copy.deepcopy(conf))
                call(pl.prepare, list(files.values()))
                # every peak is a cluster of its own, so that the candidates are those of the peaks
                from riptide.pipeline.peak_cluster import PeakCluster
                pl.peaks = sorted(peaks, key=lambda p: p.period)
                pl.clusters = [PeakCluster([p]) for p in pl.peaks]
                call(pl.flag_harmonics)
                call(pl.apply_candidate_filters)
                call(pl.build_candidates)
                call(pl.save_products, outdir=out)
            return pl
        a = go(good, os.path.join(d, "a"))
        z = go(good + bad, os.path.join(d, "z"))
        key = lambda k: (tuple(float(v) for _, v in sorted(k.params.items())), np.asarray(k.subints).tobytes(), np.shape(k.subints))
        ka, kz = [key(k) for k in a.candidates], [key(k) for k in z.candidates]
        require(len(ka) == len(good), f"{len(ka)} candidates of {len(good)} clusters")
        require(sorted(ka) == sorted(kz), f"{len(kz)} candidates with {len(bad)} clusters that cannot be folded ({[(p.period, p.dm) for p in bad]}), {len(ka)} without them")
        fa = sorted(n for n in os.listdir(os.path.join(d, "a")) if n.startswith("candidate"))
        fz = sorted(n for n in os.listdir(os.path.join(d, "z")) if n.startswith("candidate"))
        require(fa == fz, f"candidate files {fz}, expected {fa}")
        return [q["how"] for q in c["bad"]] + ([] if good else ["trivial"])


PROP = Prop("C30", [
    Sub("failures", gen, run, 260, 6000, "a run with one thing broken (files, data, output directory, configuration, options), through the library or the command line, then repaired and run again; non-trivial unless the fault needs products and nothing is found", shards=(5, 8)),
    Sub("recover", gen_recover, run_recover, 60, 1200, "one Pipeline object used before, at and after a failure; non-trivial if a signal is found", shards=(1, 8)),
    Sub("needless", gen_needless, run_needless, 80, 1500, "unneeded data files broken, earlier products and other files in the output directory; non-trivial if something is broken or stale", shards=(1, 8)),
    Sub("unfoldable", gen_unfoldable, run_unfoldable, 120, 2500, "selected clusters some of which cannot be folded; non-trivial if others can", shards=(1, 8)),
], assumptions=["a killed worker process is not one of the faults (multiprocessing.Pool does not notice)", "the end of the interpreter is imitated by multiprocessing's exit function in a forked process"])
