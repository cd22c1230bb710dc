"""Main program of a new process: python launch.py NATIVE_MODULE START_METHOD COMMAND ARGS...  (worker processes that import
the main module anew, as `spawn` and `forkserver` do, then find riptide the same way)."""
import os, sys

sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.dirname(os.path.realpath(__file__))]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from vf import env
if "riptide" not in sys.modules:
    env.install(os.environ["VF_NATIVE"])

if __name__ == "__main__":
    import multiprocessing
    start, command = sys.argv[1:3]
    if start != "default":
        multiprocessing.set_start_method(start)
    sys.argv = sys.argv[2:]
    if command == "rffa":
        from riptide.pipeline.pipeline import main
    else:
        from riptide.apps.rseek import main
    main()
