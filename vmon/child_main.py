"""Run as a separate process: a module as the main program, as by ``python -m``."""
import os
import runpy
import sys
import warnings

REPO, MODULE = sys.argv[1:3]
sys.path[0:1] = [REPO]
sys.argv[1:3] = []
sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from vmon import monitors  # noqa

monitors.confine(os.environ["VMON_ROOT"])

runpy.run_module(MODULE, run_name="__main__", alter_sys=True)
