"""
catch.py [ID...]: runs the quick check of the property of every planted bug (or those given) against a copy of /repo
with the bug, and writes (their lines of) the table in DESIGN.md.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
MARK = "<!-- catch table -->\n"


def one(bug):
    folder = VERIF / "seeded" / bug
    meta = json.loads((folder / "meta.json").read_text())
    copy = Path(tempfile.mkdtemp(prefix="catch-")) / "repo"
    try:
        subprocess.run(["cp", "-a", "/repo", str(copy)], check=True)
        applied = subprocess.run(["git", "-C", str(copy), "apply", str(folder / "patch.diff")], stderr=subprocess.PIPE, text=True)
        if applied.returncode:
            return bug, meta, "DOES NOT APPLY"
        ret = subprocess.run([sys.executable, str(VERIF / "run.py"), "check", meta["property"], "--tier", "quick"],
                             env={**os.environ, "VMON_REPO": str(copy), "VMON_WORKERS": "2", "VERIF_SEED": os.environ.get("VERIF_SEED", "1")},
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
        found = ret.returncode == 1 and f"VIOLATION property={meta['property']}" in ret.stdout
        where = ""
        if found:
            lines = ret.stdout.splitlines()
            where = next((x.split(" case ")[0] for x in lines if " case " in x), "")
        return bug, meta, where or ("caught" if found else f"MISSED (exit {ret.returncode})")
    finally:
        shutil.rmtree(copy.parent, ignore_errors=True)


def main():
    chosen = sys.argv[1:] or sorted(p.name for p in (VERIF / "seeded").iterdir())
    with concurrent.futures.ThreadPoolExecutor(5) as pool:
        results = list(pool.map(one, chosen))
    design = VERIF / "DESIGN.md"
    text = design.read_text()
    start = text.index(MARK) + len(MARK)
    rows = {tuple(x.strip() for x in line.split("|")[1:3]): line for line in text[start:].splitlines()[2:]}
    rows = {key: line for key, line in rows.items() if (VERIF / "seeded" / key[1]).is_dir()}
    for bug, meta, verdict in results:
        cells = (meta["property"], bug, f"{meta['needs'][:110]} → {meta['what_it_breaks'][:110]}", verdict)
        rows[cells[:2]] = "| " + " | ".join(x.replace("\n", " ").replace("|", "/") for x in cells) + " |"
        if verdict.startswith(("MISSED", "DOES")):
            print(bug, verdict)
    print(len(results), "run")
    table = ["| property | planted bug | breaks | caught by scenario |", "|---|---|---|---|"]
    design.write_text(text[:start] + "\n".join(table + [rows[key] for key in sorted(rows)]) + "\n")


main()
