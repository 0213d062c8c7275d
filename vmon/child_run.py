"""Run as a separate process: calls the main function of a script with parameters from a file."""
import os
import sys
import warnings

REPO, MODULE, PARAMS = sys.argv[1:4]
sys.path[0:1] = [REPO]
sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from vmon import monitors  # noqa

monitors.confine(os.environ["VMON_ROOT"])

import importlib  # noqa
from pathlib import Path  # noqa

from vistautils.parameters import YAMLParametersLoader  # noqa

importlib.import_module(MODULE).main(YAMLParametersLoader().load(Path(PARAMS)))
