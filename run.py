"""
Entry point of all checks:

    run.py check C01 [--tier quick|thorough]    decide one property
    run.py replay FILE                          run a recorded violation again
    run.py setup                                check that the sandbox can run the checks
    run.py list                                 the properties which have checks

The code under test is imported from /repo (or $VMON_REPO); nothing is ever taken from elsewhere.
"""
import argparse
import importlib
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
REPO = os.path.realpath(os.environ.get("VMON_REPO", "/repo"))

WANTED = {
    "PYTHONHASHSEED": "0",  # hash randomisation must not decide what is explored
    # without the UTF-8 mode, so that cases can run under another locale
    "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
}
if any(os.environ.get(k) != v for k, v in WANTED.items()):
    os.environ.update(WANTED)
    os.environ.pop("PYTHONPATH", None)
    exe = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execv(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:])

sys.path[0:0] = [REPO, HERE]
sys.dont_write_bytecode = True


def import_code_under_test():
    # dependencies may come from cached bytecode, the code under test is always compiled afresh
    for dependency in ("attr", "yaml", "immutablecollections", "sortedcontainers", "deprecation",
                       "typing_extensions", "zipfile", "tarfile", "gzip", "argparse",
                       "logging.config"):
        importlib.import_module(dependency)
    cache = os.path.join(HERE, ".no-bytecode-cache")
    sys.pycache_prefix = cache
    warnings.simplefilter("ignore")
    try:
        for name in ("preconditions", "range", "span", "annotated_text_utils", "io_utils",
                     "key_value", "parameters", "_graph", "parameters_only_entrypoint",
                     "logging_utils", "checkpoints", "iter_utils", "iterutils", "misc_utils",
                     "collection_utils", "class_utils", "memory_amount", "attrutils",
                     "scripts.directory_to_key_value_store", "scripts.downsample_key_value_store",
                     "scripts.join_key_value_stores", "scripts.split_key_value_store",
                     "scripts.tar_gz_to_zip", "scripts.text_at_offsets"):
            module = importlib.import_module("vistautils." + name)
            if os.path.realpath(module.__file__).startswith(REPO + os.sep) is False:
                sys.exit(f"not the code under test: {module.__file__}")
    finally:
        sys.pycache_prefix = None


def load(prop_id):
    return importlib.import_module(f"vmon.props.{prop_id.lower()}").PROP


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("command", choices=["check", "replay", "setup", "list"])
    parser.add_argument("what", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                        choices=["quick", "thorough"])
    args = parser.parse_args()
    if args.command == "list":
        for file in sorted(os.listdir(os.path.join(HERE, "vmon", "props"))):
            if file.startswith("c") and file.endswith(".py"):
                print(file[:-3].upper())
        return 0
    if args.command == "setup":
        import attr, immutablecollections, yaml  # noqa pylint:disable=all
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        print("nothing to build: the checks import the code under test from", REPO)
        return 0

    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    try:
        import_code_under_test()
    except Exception:  # pylint:disable=broad-except
        # nothing can be said about code which cannot even be imported
        import traceback
        traceback.print_exc()
        return 2
    from vmon import engine
    if args.command == "replay":
        with open(args.what, encoding="utf-8") as inp:
            record = json.load(inp)
        record["file"] = args.what
        return engine.replay(load(record["property"]), record, REPO)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return engine.run_property(load(args.what), args.tier, seed, REPO)


if __name__ == "__main__":
    sys.exit(main())
