"""Runs one Sub inside one process with Hypothesis; journals the case under execution."""
import json, os, sys, time, traceback, types
from collections import Counter

from . import core
from .core import Violation, Skip


class StopRun(KeyboardInterrupt):
    """Generation budget exhausted (not an outcome)."""


class Journal:
    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)

    def write(self, text):
        data = text.encode()
        os.pwrite(self.fd, data, 0)
        os.ftruncate(self.fd, len(data))
        os.utime(self.fd)


def execute(sub, case):
    """-> (status, labels or message, key); status in ok, skip, violation. Other exceptions propagate.

    core.call() already turns an exception raised by the code under test into a violation. What is left of the kinds
    below comes from reading a result: a None, a shape, a key or a number that the oracle cannot interpret. No such
    exception occurs on any case of the unchanged tree, so it is reported as a malformed result."""
    try:
        labels = sub.run(case)
        return "ok", sorted(set(labels or ())), None
    except Skip as e:
        return "skip", [f"skip:{e}"], None
    except Violation as e:
        return "violation", str(e), e.key
    except (TypeError, AttributeError, LookupError, ValueError, ArithmeticError) as e:
        if isinstance(e, AttributeError) and isinstance(getattr(e, "obj", None), types.ModuleType):
            raise   # the harness uses a function that this tree does not have: no verdict
        where = traceback.extract_tb(e.__traceback__)[-1]
        return "violation", f"malformed result, the oracle cannot read it: {type(e).__name__}: {e} (at {os.path.basename(where.filename)}:{where.lineno})", None


def execute_isolated(sub, case, timeout=200.0, log=None):
    """As execute, in a forked process: a crash or endless loop of the code under test is a violation."""
    import resource, select, signal
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setpgid(0, 0)
            if log:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fd, 1); os.dup2(fd, 2)
            try:
                out = execute(sub, case)
            except BaseException:
                out = ("error", traceback.format_exc(), None)
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf, t_end = b"", time.monotonic() + timeout
    timed_out = False
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5.0))
        if rl:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        return "violation", f"no answer after {timeout:.0f} s on a case that takes a fraction of a second", None
    _, status = os.waitpid(pid, 0)
    if buf:
        s, info, key = json.loads(buf)
        if s == "error":
            raise RuntimeError("harness error in isolated case:\n" + info)
        return s, info, key
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == 9:
        raise MemoryError("isolated case was killed (SIGKILL)")
    what = f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exit status {os.WEXITSTATUS(status)}"
    return "violation", f"the process died ({what}) inside the code under test", None


def run_sub(sub, seed, n, budget_s, journal_path, known_keys, isolated=False, with_examples=True):
    """-> result dict. Never raises for a violation."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 40
    journal = Journal(journal_path)
    t0 = time.monotonic()
    st = {"failed_at": None, "fail": None, "evaluations": 0, "seen": set(), "nontrivial": set(), "labels": Counter(),
          "samples": [], "known": Counter(), "budget_hit": False}
    wants_samples = 4

    def one(case):
        text = core.canon(case)
        journal.write(text)
        status, info, key = execute_isolated(sub, case) if isolated else execute(sub, case)
        if st["failed_at"] is None:
            st["evaluations"] += 1
            d = core.digest(case)
            if status == "ok":
                for lb in info:
                    st["labels"][lb] += 1
                if d not in st["seen"] and sub.nontrivial(case, info):
                    st["nontrivial"].add(d)
                    if len(st["samples"]) < wants_samples and len(text) < 4000 and (len(st["nontrivial"]) in (1, 7, 31, 127)):
                        st["samples"].append({"sub": sub.name, "case": case, "labels": info})
            elif status == "skip":
                for lb in info:
                    st["labels"][lb] += 1
            st["seen"].add(d)
        if status == "violation":
            if key is not None and key in known_keys:
                st["known"][key] += 1
                return
            if st["failed_at"] is None:
                st["failed_at"] = time.monotonic()
            st["fail"] = {"case": case, "message": info, "key": key}
            raise Violation(info, key)

    def finish(error=None):
        journal.write("null")
        return {"sub": sub.name, "evaluations": st["evaluations"], "nontrivial": sorted(st["nontrivial"]),
                "labels": dict(st["labels"]), "samples": st["samples"], "known": dict(st["known"]), "fail": st["fail"],
                "budget_hit": st["budget_hit"], "error": error, "wall_s": time.monotonic() - t0}

    try:
        if with_examples:
            for ex in sub.examples:
                one(ex)

        strategy = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") else sub.strategy

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False)
        @given(strategy)
        def test(case):
            if st["failed_at"] is None and time.monotonic() - t0 > budget_s:
                st["budget_hit"] = True
                raise StopRun()
            one(case)

        if n > 0:
            test()
    except StopRun:
        pass
    except Violation:
        pass
    except BaseException:
        if st["fail"] is None:   # with a recorded failure, Flaky and friends only say that shrinking got confused
            return finish(error=traceback.format_exc())
    return finish()
