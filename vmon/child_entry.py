"""Run as a separate process: a program using the parameters-only entry point."""
import json
import os
import sys
import warnings

REPO, RESULT, PLAN = sys.argv[1:4]
sys.path[0:1] = [REPO]
sys.argv[1:4] = []
sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from vmon import monitors  # noqa

monitors.confine(os.environ["VMON_ROOT"])

import logging  # noqa

from vistautils.parameters import Parameters  # noqa
from vistautils.parameters_only_entrypoint import parameters_only_entry_point  # noqa

with open(PLAN, encoding="utf-8") as inp:
    plan = json.load(inp)


def main(params):
    with open(RESULT, "a", encoding="utf-8") as out:
        out.write(json.dumps(params.as_nested_dicts()) + "\n")
    log = logging.getLogger(plan["logger"])
    for level, message in plan["messages"]:
        log.log(level, message)
    if plan["failure"] == "error":
        raise ValueError("failure of the program")
    if plan["failure"] == "exit":
        sys.exit(17)


if plan["given"] is None:
    parameters_only_entry_point(main)
else:
    parameters_only_entry_point(main, parameters=Parameters.from_mapping(plan["given"]))
