"""Builds riptide's native module from /repo's working tree (outside /repo), and makes
`import riptide` mean: the Python files of /repo + that freshly built native module."""
import fcntl, glob, hashlib, importlib.abc, importlib.machinery, importlib.util
import os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
PY = sys.executable
SKIP = {".git", "build", "__pycache__", "dist", ".eggs", "docs", "tests"}

VARIANTS = {
    "plain": "",
    # recover is off: the first report ends the process, which the supervisor sees
    "asan": "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -g1",
}


class BuildError(Exception):
    pass


def _tree_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in SKIP and not d.endswith(".egg-info"))
        for f in sorted(files):
            if not f.endswith((".so", ".pyc", ".o")):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def fingerprint(variant):
    h = hashlib.sha256()
    for rel in _tree_files():
        if rel.endswith((".c", ".cc", ".cpp", ".cxx", ".h", ".hh", ".hpp", ".inl", ".ipp", "setup.py", "pyproject.toml", "setup.cfg")):
            h.update(rel.encode() + b"\0")
            with open(os.path.join(REPO, rel), "rb") as f:
                h.update(f.read() + b"\0")
    h.update(variant.encode() + VARIANTS[variant].encode())
    with open("/proc/cpuinfo") as f:
        for line in f:
            if line.startswith(("model name", "flags")):
                h.update(line.encode())
            if not line.strip():
                break
    return h.hexdigest()[:24]


def build(variant="plain"):
    """Returns the path of the native module built from the current /repo tree."""
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, f"{variant}-{fingerprint(variant)}")
    with open(os.path.join(CACHE, f"lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        found = glob.glob(os.path.join(dest, "libcpp*.so"))
        if found:
            return found[0]
        tmp = tempfile.mkdtemp(prefix="vf-build-")
        try:
            src = os.path.join(tmp, "src")
            for rel in _tree_files():
                d = os.path.join(src, rel)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), d)
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.2.5", PIP_NO_INDEX="1")
            env.pop("LD_PRELOAD", None)
            if VARIANTS[variant]:
                env["CFLAGS"] = VARIANTS[variant]
                env["CXXFLAGS"] = VARIANTS[variant]
                env["LDFLAGS"] = "-fsanitize=address,undefined"
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=src, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sos = glob.glob(os.path.join(src, "riptide", "libcpp*.so"))
            if r.returncode or not sos:
                raise BuildError(r.stdout[-4000:])
            # only one generation of each variant is kept
            for old in glob.glob(os.path.join(CACHE, f"{variant}-*")):
                shutil.rmtree(old, ignore_errors=True)
            part = dest + ".part"
            shutil.rmtree(part, ignore_errors=True)
            os.makedirs(part)
            shutil.copyfile(sos[0], os.path.join(part, os.path.basename(sos[0])))
            os.rename(part, dest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return glob.glob(os.path.join(dest, "libcpp*.so"))[0]


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == "riptide.libcpp":
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        if name == "riptide._version" and not os.path.exists(os.path.join(REPO, "riptide", "_version.py")):
            return importlib.util.spec_from_file_location(name, os.path.join(VERIF, "vf", "_version_stub.py"))
        return None


def install(so):
    """Make `import riptide` use REPO's Python files and the given native module."""
    sys.dont_write_bytecode = True
    if "riptide" in sys.modules:
        raise RuntimeError("riptide already imported")
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(so))
    import riptide
    import riptide.libcpp
    assert os.path.realpath(riptide.__file__).startswith(os.path.realpath(REPO) + os.sep), riptide.__file__
    assert riptide.libcpp.__file__ == so, riptide.libcpp.__file__


def add_hypothesis():
    """Hypothesis comes from the tooling venv (pure Python, same 3.12); last in sys.path so that nothing else does."""
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    import hypothesis  # noqa


def sanitizer_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
    return {
        "LD_PRELOAD": f"{lib} {std}",
        "PYTHONMALLOC": "malloc",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=8192:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    }
