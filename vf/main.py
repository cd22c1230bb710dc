"""Command line: decides one property. Exit 0 held, 1 violated (VIOLATION line), 2 error of the check."""
import importlib, json, os, shutil, signal, sys, tempfile, time, traceback
from collections import Counter

from . import env

VERIF = env.VERIF
MAX_PAR = 8
HANG_S = 150.0


def load_prop(pid):
    return importlib.import_module(f"vf.props.{pid.lower()}").PROP


def known_findings(pid):
    """{key: text} of the recorded, unrepaired findings of one property."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(p.split("=", 1) for p in line.split()[1:3])
                if f.get("property") == pid:
                    out[f["key"]] = line.split(None, 3)[3]
    return out


class Shard:
    def __init__(self, sub, seed, n, deadline, first):
        self.sub, self.seed, self.n, self.deadline, self.first = sub, seed, n, deadline, first
        self.pid = None
        self.result = None
        self.crash = None


def start(shard, tmp, k, known, isolated=False):
    from . import runner
    shard.out = os.path.join(tmp, f"{k}.out")
    shard.journal = os.path.join(tmp, f"{k}.journal")
    shard.log = os.path.join(tmp, f"{k}.log")
    if os.path.exists(shard.out):
        os.unlink(shard.out)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            fd = os.open(shard.log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1); os.dup2(fd, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = runner.run_sub(shard.sub, shard.seed, shard.n, max(1.0, shard.deadline - time.monotonic()), shard.journal, known,
                                 isolated=isolated or shard.sub.isolate, with_examples=shard.first)
            with open(shard.out + ".part", "w") as f:
                json.dump(res, f)
            os.rename(shard.out + ".part", shard.out)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
    shard.pid = pid
    shard.t0 = time.monotonic()


def collect(shard, status):
    if os.path.exists(shard.out):
        with open(shard.out) as f:
            shard.result = json.load(f)
        return
    text = ""
    try:
        text = open(shard.journal).read()
    except OSError:
        pass
    shard.crash = {"status": status, "case": json.loads(text) if text.strip() else None,
                   "log": tail(shard.log)}


def tail(path, n=6000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run_shards(shards, tmp, known, max_par, isolated=False):
    todo, live, k = list(shards), {}, 0
    stop = False
    while todo or live:
        while todo and len(live) < max_par and not stop:
            s = todo.pop(0)
            start(s, tmp, k, known, isolated)
            k += 1
            live[s.pid] = s
        if stop:
            todo = []
        if not live:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, s in list(live.items()):
                try:
                    age = time.time() - os.stat(s.journal).st_mtime
                except OSError:
                    age = time.monotonic() - s.t0
                if age > HANG_S and not (isolated or s.sub.isolate):
                    kill_group(p)
                    os.waitpid(p, 0)
                    live.pop(p)
                    collect(s, "hang")
            time.sleep(0.02)
            continue
        s = live.pop(pid, None)
        if s is None:
            continue
        kill_group(pid)   # whatever pools the code under test left behind
        collect(s, status)
        if s.crash or (s.result and s.result["fail"]):
            stop = True   # one violation is enough: the rest of the queue is dropped, live shards finish or are stopped
            for p, o in list(live.items()):
                kill_group(p)
                os.waitpid(p, 0)
                live.pop(p)
                o.result = None


def describe(status):
    if status == "hang":
        return f"a single case ran for more than {HANG_S:.0f} s"
    if os.WIFSIGNALED(status):
        return f"the process died from signal {os.WTERMSIG(status)}"
    return f"the process ended with status {os.WEXITSTATUS(status)}"


def report(pid, sub, case, message):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    from . import core
    path = os.path.join(d, f"{pid}-{sub}-{core.digest(case)}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": sub, "case": case, "message": message}, f, indent=1)
    print(f"sub-check {sub}: {message}")
    print(f"case: {core.canon(case)[:2000]}")
    print(f"VIOLATION property={pid} replay={path}")


def write_evidence(prop, tier, seed, results, wall, violations, known_counts):
    per = {}
    nontriv = set()
    for r in results:
        p = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "labels": Counter(), "budget_hit": False, "samples": []})
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] |= set(r["nontrivial"])
        p["labels"].update(r["labels"])
        p["budget_hit"] |= r["budget_hit"]
        p["samples"] += r["samples"]
    samples = []
    for i in range(3):
        for p in per.values():
            if len(p["samples"]) > i:
                samples.append(p["samples"][i])
    out = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per.values()),
            "distinct_nontrivial": sum(len(p["distinct_nontrivial"]) for p in per.values()),
            "rule": " || ".join(f"{s.name}: {s.rule}" for s in prop.subs),
            "samples": samples[:12],
            "per_sub": {k: {"evaluations": p["evaluations"], "distinct_nontrivial": len(p["distinct_nontrivial"]),
                            "labels": dict(sorted(p["labels"].items())), "stopped_by_time_budget": p["budget_hit"]} for k, p in per.items()},
            "known_finding_hits": dict(known_counts),
        },
        "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop.id}.part")
    with open(tmp, "w") as f:
        json.dump(out, f, indent=1)
    os.rename(tmp, os.path.join(d, f"{prop.id}.json"))


def prepare(prop):
    """Build, and re-exec under the sanitizer runtime if the property asks for it."""
    so = env.build(prop.variant)
    if prop.variant == "asan" and os.environ.get("VF_SANITIZED") != "1":
        e = dict(os.environ, VF_SANITIZED="1", **env.sanitizer_env())
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, "-m", "vf.main"] + sys.argv[1:], e)
    env.add_hypothesis()
    env.install(so)
    import logging
    logging.disable(logging.CRITICAL)


def decide(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = load_prop(pid)
    known = known_findings(pid)
    try:
        prepare(prop)
    except env.BuildError as e:
        print("the native module does not build:\n" + str(e))
        return 2
    budget = float(os.environ.get("VF_BUDGET", "240" if tier == "quick" else "700"))
    only = os.environ.get("VF_ONLY")
    scale = float(os.environ.get("VF_SCALE", "1"))
    shards = []
    for i, s in enumerate(prop.subs):
        if only and s.name not in only.split(","):
            continue
        n = int((s.quick if tier == "quick" else s.thorough) * scale)
        k = max(1, min(s.shards[0 if tier == "quick" else 1], n))
        for j in range(k):
            shards.append(Shard(s, seed * 1000003 + i * 1009 + j, -(-n // k), t0 + budget, j == 0))
    # the longest-running first is not known: sub order is the author's order
    tmp = tempfile.mkdtemp(prefix="vf-run-")
    try:
        run_shards(shards, tmp, known, MAX_PAR)
        results = [s.result for s in shards if s.result]
        kc = Counter()
        for r in results:
            kc.update(r["known"])
        rc = 0
        for s in shards:
            if s.crash:
                rc = handle_crash(prop, s, tmp, known)
                if rc:
                    break
        if rc == 0:
            for s in shards:
                r = s.result
                if r and r["fail"]:
                    report(pid, r["sub"], r["fail"]["case"], r["fail"]["message"])
                    rc = 1
                    break
        if rc == 0:
            for s in shards:
                if s.result and s.result["error"]:
                    if rc == 0:
                        print(f"harness error in {s.sub.name}:\n{s.result['error'][-6000:]}")
                    rc = 2
                elif s.result is None and not s.crash:
                    print(f"no result from {s.sub.name}")
                    rc = 2
        wall = time.monotonic() - t0
        write_evidence(prop, tier, seed, results, wall, 1 if rc == 1 else 0, kc)
        if rc == 0:
            for key, text in known.items():
                print(f"KNOWN-FINDING: property={pid} {text}")
            tot = sum(r["evaluations"] for r in results)
            nt = sum(len(set(r["nontrivial"])) for r in results)
            print(f"{pid} held on {tot} cases ({nt} non-trivial), {tier}, seed {seed}, {wall:.1f} s")
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def handle_crash(prop, s, tmp, known):
    from . import runner
    c = s.crash
    what = describe(c["status"])
    if c["status"] != "hang" and os.WIFSIGNALED(c["status"]) and os.WTERMSIG(c["status"]) == signal.SIGKILL:
        print(f"{s.sub.name}: worker was killed (out of memory?)\n{c['log']}")
        return 2
    if c["case"] is None:
        print(f"{s.sub.name}: {what} outside any case\n{c['log']}")
        return 2
    print(f"{s.sub.name}: {what}; confirming")
    confirmed = None
    for _ in range(1 if c["status"] == "hang" else 3):
        status, info, key = runner.execute_isolated(s.sub, c["case"], timeout=HANG_S, log=os.path.join(tmp, "confirm.log"))
        if status == "violation":
            confirmed = info
            break
    if confirmed is None:
        print(f"{s.sub.name}: {what}, but the case alone does not reproduce it\n{c['log']}")
        if c["status"] == "hang":
            return 2
        # memory corruption by an earlier case of the same process: search again with one process per case
    case, message = c["case"], confirmed
    if c["status"] != "hang":
        # same search, one process per case, which lets Hypothesis shrink the crash
        again = Shard(s.sub, s.seed, min(s.n, 2000), time.monotonic() + 150.0, s.first)
        run_shards([again], tmp, known, 1, isolated=True)
        if again.result and again.result["fail"]:
            case, message = again.result["fail"]["case"], again.result["fail"]["message"]
    if message is None:
        return 2
    report(prop.id, s.sub.name, case, f"{message}\n{c['log'][-3000:]}")
    return 1


def replay(pid, path):
    from . import runner
    prop = load_prop(pid)
    prepare(prop)
    with open(path) as f:
        r = json.load(f)
    sub = prop.sub(r["sub"])
    status, info, key = runner.execute_isolated(sub, r["case"])
    print(status, info)
    if status == "violation":
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def main(argv):
    if argv[:1] == ["--build"]:
        for v in env.VARIANTS:
            print(env.build(v))
        return 0
    pid = argv[0]
    if argv[1:2] == ["--replay"]:
        return replay(pid, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return decide(pid, tier)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
