"""
plant.py SPECS.py [NAME...]: confirms planted bugs and keeps them below /verif/seeded.

SPECS.py defines SPECS, a list of dicts with: id, property, edits [(file, old, new)], needs, breaks, demo
(Python code; `scratch` is an empty directory, fail(...) ends it with an error).
Every bug is kept only if its patch changes original lines, the tests pass with it, and the demo succeeds
without and fails with it. The last column tells whether the property's quick check reports it.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PYTHON = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                      stdout=subprocess.PIPE, text=True).stdout.strip()
PRELUDE = '''import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import logging
import shutil
import tempfile
import warnings
from pathlib import Path

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
scratch = Path(tempfile.mkdtemp())


def fail(*what):
    print("FAILED:", *what)
    sys.exit(1)


try:
'''
EPILOGUE = '''finally:
    shutil.rmtree(str(scratch), ignore_errors=True)
print("ok")
'''


def run(command, cwd, env=None, timeout=900):
    return subprocess.run(command, cwd=cwd, env={**os.environ, "PYTHONHASHSEED": "0", **(env or {})}, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def copy():
    where = Path(tempfile.mkdtemp(prefix="plant."))
    subprocess.run(["cp", "-a", "/repo", str(where / "repo")], check=True)
    return where


def failed_tests(repo, work):
    xml = work / "junit.xml"
    done = run([PYTHON, "-B", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300",
                f"--basetemp={work / 'pytest'}", f"--junitxml={xml}", "-o", "junit_family=xunit2"], repo)
    text = xml.read_text() if xml.exists() else done.stdout
    ret = []
    for case in re.finditer(r'<testcase classname="([^"]*)" name="([^"]*)"[^>]*>(.*?)(?=<testcase|</testsuite)', text, re.S):
        if "<failure" in case.group(3) or "<error" in case.group(3):
            name = case.group(1) + "::" + case.group(2)
            if not name.endswith("test_range_map.TestRangeMap::test_pickling"):  # fails anyway
                ret.append(name)
    if not xml.exists():
        ret.append("no results: " + done.stdout[-500:])
    return ret


def changes_original(repo, file, diff):
    lines = set()
    number = 0
    for line in diff.splitlines():
        hunk = re.match(r"@@ -(\d+)", line)
        if hunk:
            number = int(hunk.group(1))
        elif line.startswith("-") and not line.startswith("---"):
            lines.add(number)
            number += 1
        elif line.startswith(" "):
            number += 1
    blame = run(["git", "blame", "-l", "-s", "HEAD", "--", file], repo).stdout.splitlines()
    original = [n for n in lines if blame[n - 1].lstrip("^").startswith(BASE[:38])]
    return len(original), len(lines)


def plant(spec):
    work = copy()
    repo = work / "repo"
    notes = []
    try:
        target = work / "seeded"
        target.mkdir()
        demo = PRELUDE + "".join(f"    {line}\n" if line.strip() else "\n"
                                 for line in spec["demo"].strip("\n").splitlines()) + EPILOGUE
        (target / "demo.py").write_text(demo)
        (target / "demo.sh").write_text(f'#!/bin/sh\nexec {PYTHON} -B "$(dirname "$0")/demo.py"\n')
        before = run(["sh", str(target / "demo.sh")], repo, timeout=300)
        if before.returncode != 0:
            return spec, f"BAD: the demo fails without the patch: {before.stdout[-600:]}", None
        for file, old, new in spec["edits"]:
            path = repo / file
            text = path.read_text()
            if text.count(old) != 1:
                return spec, f"BAD: {text.count(old)} occurrences of {old!r}", None
            path.write_text(text.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        (target / "patch.diff").write_text(diff)
        original = 0
        for file in {e[0] for e in spec["edits"]}:
            found, _ = changes_original(repo, file, run(["git", "diff", "--", file], repo).stdout)
            original += found
        if not original:
            return spec, "BAD: changes no original line", None
        after = run(["sh", str(target / "demo.sh")], repo, timeout=300)
        if after.returncode == 0:
            return spec, "BAD: the demo succeeds with the patch", None
        if "FAILED" not in after.stdout:
            notes.append("demo ends with: " + after.stdout.strip().splitlines()[-1][:150])
        failed = failed_tests(repo, work)
        if failed:
            return spec, f"BAD: tests fail: {failed[:3]}", None
        (target / "meta.json").write_text(json.dumps(
            {"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
        check = run([PYTHON, "-B", str(VERIF / "run.py"), "check", spec["property"]], VERIF,
                    {"VMON_REPO": str(repo), "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VMON_WORKERS": "4"})
        caught = check.returncode == 1 and f"VIOLATION property={spec['property']} " in check.stdout
        if not caught:
            notes.append(check.stdout[-300:])
        else:
            notes.append(check.stdout.strip().splitlines()[-3 if len(check.stdout.splitlines()) > 2 else 0][:160])
        final = VERIF / "seeded" / spec["id"]
        if final.exists():
            shutil.rmtree(str(final))
        shutil.copytree(str(target), str(final))
        return spec, ("caught" if caught else "MISSED") + " " + "; ".join(notes), caught
    finally:
        shutil.rmtree(str(work))


def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    if sys.argv[2:]:
        specs = [s for s in specs if s["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for spec, result, _ in pool.map(plant, specs):
            print(f"{spec['id']}: {result}", flush=True)


main()
