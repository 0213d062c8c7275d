"""Runs parts of the code under test in processes of their own."""
import json
import os
import subprocess
import sys

from vmon import monitors
from vmon.engine import VERIF


def repo():
    return os.path.dirname(os.path.dirname(sys.modules["vistautils.range"].__file__))


def run(arguments, *, env=None, cwd=None, timeout=200, **kwargs):
    """Runs Python with the given arguments; the process can do what this one could do."""
    with monitors.trusted():
        return subprocess.run(
            [sys.executable, "-B"] + [str(a) for a in arguments],
            env={**os.environ, **(env or {})}, cwd=cwd, timeout=timeout, check=False,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kwargs,
        )


def run_main(c, module, params, hash_seed, name="child"):
    """Calls the main function of a script on parameters (nested dictionaries)."""
    file = c.dir / f"{name}.params"
    file.write_text(json.dumps(params, ensure_ascii=False), encoding="utf-8")  # JSON is YAML, too
    done = run([VERIF / "vmon" / "child_run.py", repo(), module, file],
               env={"PYTHONHASHSEED": str(hash_seed)})
    c.eq(done.returncode, 0, f"{module} failed in a process of its own", done.stdout[-1500:])


def run_as_main(module, arguments, **kwargs):
    """Runs a script the way ``python -m`` does."""
    return run([VERIF / "vmon" / "child_main.py", repo(), module, *arguments], **kwargs)
