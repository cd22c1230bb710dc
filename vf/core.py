"""Vocabulary of the property modules: Sub (one executable check), Violation, call, must_raise, arrays."""
import contextlib, hashlib, io, json, math, os, shutil, tempfile, traceback, warnings
import numpy as np

EPS32 = float(np.finfo(np.float32).eps)


class Violation(Exception):
    """The code under test broke the property on this case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case falls in a zone where the property does not decide (counted, never silent)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def call(fn, *a, **k):
    """Call the code under test on an input for which it must work."""
    try:
        return fn(*a, **k)
    except MemoryError:
        raise
    except (Violation, Skip):
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-4)
        raise Violation(f"unexpected {type(e).__name__}: {e} from {getattr(fn, '__qualname__', fn)}\n{tb}") from None


def must_raise(excs, fn, *a, **k):
    """Call the code under test on an input it must refuse."""
    try:
        r = fn(*a, **k)
    except excs:
        return
    except MemoryError:
        raise
    except Exception as e:
        raise Violation(f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__} ({e}) instead of {excs}") from None
    raise Violation(f"{getattr(fn, '__qualname__', fn)} accepted an invalid input, returned {str(r)[:200]}")


class Sub:
    """One executable check of a property.

    name: unique in the property; strategy: Hypothesis strategy of JSON-able cases (or callable returning one);
    run(case) -> iterable of labels, raises Violation; quick / thorough: number of generated cases;
    nontrivial(case, labels) -> bool; examples: fixed cases run first; rule: text.
    """
    def __init__(self, name, strategy, run, quick, thorough, rule, nontrivial=None, examples=(), shards=(1, 4), isolate=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.nontrivial = nontrivial or (lambda case, labels: "trivial" not in labels)
        self.examples = list(examples)
        self.shards = shards      # number of processes in quick, thorough
        self.isolate = isolate


class Prop:
    def __init__(self, id, subs, assumptions=(), variant="plain", level="exploration"):
        self.id, self.subs, self.assumptions, self.variant, self.level = id, list(subs), list(assumptions), variant, level

    def sub(self, name):
        return next(s for s in self.subs if s.name == name)


# ---------------------------------------------------------------- data built from a JSON-able spec

def make_array(spec):
    """float32-representable float64 array from a JSON-able description."""
    k = spec["k"]
    if k == "list":
        return np.asarray(spec["v"], dtype=np.float32).astype(np.float64)
    n = spec["n"]
    rng = np.random.Generator(np.random.PCG64(spec.get("s", 0)))
    A = spec.get("a", 10)
    if k == "int":
        x = rng.integers(-A, A + 1, size=n).astype(float)
    elif k == "noise":
        x = rng.normal(size=n) * A + spec.get("o", 0.0)
    elif k == "uniform":
        x = rng.random(size=n) * A + spec.get("o", 0.0)
    elif k == "walk":
        x = np.cumsum(rng.integers(-A, A + 1, size=n)).astype(float)
    elif k == "const":
        x = np.full(n, float(A))
    elif k == "ramp":
        x = np.arange(n, dtype=float) * A
    elif k == "zigzag":
        x = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * A * (1 + np.arange(n) // 2)
    elif k == "spikes":
        x = np.zeros(n)
        if n:
            x[rng.integers(0, n, size=max(1, n // 50))] = A
    elif k == "wide":   # many magnitudes, both signs
        x = rng.normal(size=n) * 10.0 ** rng.integers(-6, 7, size=n)
    else:
        raise ValueError(k)
    return x.astype(np.float32).astype(np.float64)


def f32(x):
    return np.asarray(x, dtype=np.float32)


def same(a, b):
    """Bitwise-equal contents (NaN equal to itself), shape and dtype."""
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))


def check_close(got, ref, tol, what):
    got, ref = np.asarray(got), np.asarray(ref)
    require(got.shape == ref.shape, f"{what}: shape {got.shape}, expected {ref.shape}")
    if got.size == 0:
        return
    err = np.abs(got.astype(np.float64) - ref)
    bad = ~(err <= tol)
    if bad.any():
        i = tuple(int(j) for j in np.argwhere(bad)[0])
        t = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)
        raise Violation(f"{what}: element {i} is {got[i]!r}, expected {ref[i]!r} within {t[i]:.3g} ({int(bad.sum())} of {bad.size} elements differ)")


@contextlib.contextmanager
def scratch_dir():
    d = tempfile.mkdtemp(prefix="vf-case-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- strategies

def st():
    import hypothesis.strategies as s
    return s


def logint(lo, hi):
    """Integers in [lo, hi], roughly uniform in log scale (shrinks to lo)."""
    s = st()
    if hi <= lo:
        return s.just(lo)
    span = hi - lo
    buckets = [(lo, lo + min(span, 3))]
    w = 4
    while w <= span:
        buckets.append((lo + w, lo + min(span, 2 * w - 1)))
        w *= 2
    return s.integers(0, len(buckets) - 1).flatmap(lambda i: s.integers(*buckets[i]))


def sizes(lo, hi):
    """Integers in [lo, hi]: log-uniform, uniform, or just beyond a power of two or of ten."""
    s = st()
    steps = sorted(v for v in [2 ** k for k in range(4, 31)] + [10 ** k for k in range(1, 9)] if lo <= v + 2 and v < hi)
    out = [logint(lo, hi), s.integers(0, 3).flatmap(lambda k: s.integers(lo, hi) if k else s.integers(max(lo, hi // 2), hi))]
    if steps:
        out.append(s.tuples(s.sampled_from(steps), s.integers(-1, 2)).map(lambda t: min(hi, max(lo, t[0] + t[1]))))
    return s.one_of(*out)


def seeds():
    return st().integers(0, 2**32 - 1)


def arrays(n, kinds=("int", "noise", "walk", "const", "ramp", "spikes", "zigzag", "uniform", "wide"), amax=100):
    """Specs of arrays with n elements; n is an int."""
    s = st()
    one = {
        "int": lambda: s.fixed_dictionaries({"k": s.just("int"), "n": s.just(n), "s": seeds(), "a": logint(1, amax)}),
        "noise": lambda: s.fixed_dictionaries({"k": s.just("noise"), "n": s.just(n), "s": seeds(), "a": s.sampled_from([1.0, 0.001, 1000.0]), "o": s.sampled_from([0.0, 5.0, -100.0, 1e4])}),
        "uniform": lambda: s.fixed_dictionaries({"k": s.just("uniform"), "n": s.just(n), "s": seeds(), "a": s.sampled_from([1.0, 100.0]), "o": s.sampled_from([0.0, -200.0])}),
        "walk": lambda: s.fixed_dictionaries({"k": s.just("walk"), "n": s.just(n), "s": seeds(), "a": s.integers(1, 5)}),
        "const": lambda: s.fixed_dictionaries({"k": s.just("const"), "n": s.just(n), "a": s.sampled_from([0, 1, -3, 1000])}),
        "ramp": lambda: s.fixed_dictionaries({"k": s.just("ramp"), "n": s.just(n), "a": s.sampled_from([1, -1])}),
        "zigzag": lambda: s.fixed_dictionaries({"k": s.just("zigzag"), "n": s.just(n), "a": s.sampled_from([1, 2])}),
        "spikes": lambda: s.fixed_dictionaries({"k": s.just("spikes"), "n": s.just(n), "s": seeds(), "a": s.sampled_from([1, 100])}),
        "wide": lambda: s.fixed_dictionaries({"k": s.just("wide"), "n": s.just(n), "s": seeds()}),
    }
    opts = [one[k]() for k in kinds]
    if n <= 40:
        opts.append(s.lists(s.integers(-20, 20), min_size=n, max_size=n).map(lambda v: {"k": "list", "v": v}))
    return s.one_of(opts)


def finite(lo, hi):
    return st().floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False)


def logfloat(lo, hi):
    return finite(math.log(lo), math.log(hi)).map(lambda v: float(min(hi, max(lo, math.exp(v)))))


def sized(n_strategy, fn):
    return n_strategy.flatmap(fn)


def case(**fields):
    return st().fixed_dictionaries({k: (v if hasattr(v, "example") else st().just(v)) for k, v in fields.items()})


def often(k, usual, other):
    """usual k times out of k + 1 (one_of() ignores repeated strategies)"""
    return st().integers(0, k).flatmap(lambda i: other if i == k else usual)


def surroundings():
    """How a command is started: what its results must not depend on."""
    s = st()
    return case(start=s.sampled_from(["default", "spawn", "forkserver", "fork"]), hash=s.integers(0, 4294967295), tz=s.sampled_from(["UTC", "America/New_York", "Asia/Kolkata"]), columns=s.sampled_from([None, "10", "40", "300"]), opt=s.sampled_from([[], ["-O"], ["-OO"], ["-u"]]),
                umask=s.sampled_from([0o022, 0o077]), stdin=s.booleans(), threads=s.sampled_from(["1", "4"]))


def launch(c, argv, cwd, timeout=200.0):
    """argv in a new process with the given surroundings -> (exit status, stdout, stderr)"""
    import os, signal, subprocess, sys, riptide.libcpp
    e = dict(os.environ, VF_NATIVE=riptide.libcpp.__file__, PYTHONHASHSEED=str(c["hash"]), TZ=c["tz"], OMP_NUM_THREADS=c["threads"], OPENBLAS_NUM_THREADS=c["threads"])
    e.pop("COLUMNS", None)
    if c["columns"]:
        e["COLUMNS"] = c["columns"]
    with subprocess.Popen([sys.executable, *c["opt"], os.path.join(os.path.dirname(os.path.realpath(__file__)), "launch.py"), c["start"], *argv], cwd=cwd, env=e, stdin=subprocess.DEVNULL if c["stdin"] else subprocess.PIPE, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, umask=c["umask"], start_new_session=True) as p:
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Violation(f"{argv}: still running after {timeout:.0f} s")
        except BaseException:
            os.killpg(p.pid, signal.SIGKILL)
            raise
    return p.returncode, out, err
