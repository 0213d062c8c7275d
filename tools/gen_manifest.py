"""Writes /verif/MANIFEST.json from the property modules which exist."""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
TECHNIQUE = {
    "default": "runtime monitoring: generated histories on the real code, online reference-model oracle",
    "C11": "runtime monitoring: file-leak sanitizer and fault injection over generated operations",
    "C16": "runtime monitoring: file-system snapshots and content oracle over runs of the tools",
    "C23": "runtime monitoring: file-system containment hook and before/after snapshot oracle",
    "C27": "runtime monitoring: trace oracle over histories, including killed processes",
    "C28": "runtime monitoring: consumption-counting iterators and reference oracle",
}
checks, rest = [], []
for line in (VERIF / "properties.jsonl").read_text().splitlines():
    id_ = json.loads(line)["id"]
    if (VERIF / "vmon" / "props" / f"{id_.lower()}.py").exists():
        run = f"/opt/venv/bin/python -B run.py check {id_} --tier "
        checks.append({
            "property": id_,
            "quick_cmd": run + "quick",
            "thorough_cmd": run + "thorough",
            "technique": TECHNIQUE.get(id_, TECHNIQUE["default"]),
            "level": "exploration",
            "level_note": "The oracle decides every observed execution; executions are sampled "
            "(some small spaces are enumerated), so absence of violations is evidence, not proof.",
        })
    else:
        rest.append({"property": id_, "reason": "no check has been built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B run.py setup",
    "checks": checks,
    "not_applicable": rest,
}
(VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
