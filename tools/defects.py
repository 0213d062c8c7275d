"""Write the list of repaired defects of known_findings.json into section 3 of DESIGN.md."""
import json, re
from pathlib import Path
root = Path(__file__).resolve().parent.parent
fixed = json.loads((root / "known_findings.json").read_text())["fixed"]
lines = []
for entry in fixed:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", entry, re.S)
    lines.append(f"* {m[1]} `{m[2]}` {m[3]}\n")
text = (root / "DESIGN.md").read_text()
head, rest = text.split("none is left as a known finding.\n\n", 1)
tail = rest[rest.index("\n## 4."):]
(root / "DESIGN.md").write_text(head + "none is left as a known finding.\n\n" + "".join(lines) + tail)
print(len(lines))
