"""Writes MANIFEST.json from the check modules present."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C21": "Parsing of a specification text is a pure function of the text: there is no concurrency, time, fault or schedule for a simulator to control; deciding it would be input generation against a parser oracle, another technique.",
}
checks = []; na = []
for p in props:
    id = p["id"]
    path = os.path.join(HERE, "sim", "props", id.lower() + ".py")
    if os.path.exists(path):
        m = {}
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try: m[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError: pass
        note = "Held on every simulated run explored (%d in the quick tier, %d in the thorough one), no more: seeded sampling of schedules and faults, not a proof. Trusted: the simulator and its oracle. Assumes: %s." % (
            m["RUNS"]["quick"], m["RUNS"]["thorough"], "; ".join(m["ASSUMPTIONS"]))
        checks.append({
            "property": id, "quick_cmd": "./check.sh " + id,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + id,
            "evidence_file": "evidence/%s.json" % id,
            "technique": m.get("TECHNIQUE", "deterministic simulation with fault injection, seeded search over schedules and faults against a reference oracle"),
            "level": "exploration", "level_note": note})
    else:
        na.append({"property": id, "reason": NA.get(id, "Check not built yet.")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
               "not_applicable": na,
               "notes": "No hooks in /repo: every seam exists already. replay: ./replay.sh <file> exits 1 when the recorded violation happens again exactly. KNOWN_FINDINGS.txt lists defects found."}, fh, indent=1)
    fh.write("\n")
