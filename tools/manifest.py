"""Writes MANIFEST.json from properties.jsonl and the checks which exist."""

import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"

DIRECT = "bounded exhaustive enumeration of inputs on the real code, exact oracle"


def constants(path):
    out = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    checks, missing = [], []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        prop = json.loads(line)
        pid = prop["id"]
        path = ROOT / "mc" / "checks" / f"{pid.lower()}.py"
        if not path.exists():
            missing.append({"property": pid, "reason": "no check has been built for this property yet"})
            continue
        const = constants(path)
        bounds = const.get("BOUNDS", "")
        bounds = bounds["quick"] if isinstance(bounds, dict) else bounds
        note = "Exhaustive within the bounds of the quick tier: " + bounds + "."
        if const.get("ASSUMPTIONS"):
            note += " Assumes: " + "; ".join(const["ASSUMPTIONS"]) + "."
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{PY} -m mc.run {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough {PY} -m mc.run {pid}",
                "evidence_file": f"evidence/{pid}.json",
                "technique": const.get("TECHNIQUE", DIRECT),
                "level": const.get("LEVEL", "model_checking"),
                "level_note": note,
            }
        )
    manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    print(len(checks), "checks,", len(missing), "not claimed")


if __name__ == "__main__":
    main()
