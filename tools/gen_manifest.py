"""Writes MANIFEST.json from the check modules that exist."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
REASON = {}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = eval(compile(ast.Expression(n.value), path, "eval"), {"dict": dict})
            except Exception:
                pass
    return out


checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(V, "mc", "checks", pid.lower() + ".py")
    if os.path.exists(path) and pid not in REASON:
        c = consts(path)
        checks.append(dict(property=pid, quick_cmd="./check.sh %s quick" % pid, thorough_cmd="./check.sh %s thorough" % pid,
                           technique=c["TECHNIQUE"], level=c["LEVEL"],
                           level_note="Exhaustive within bounds %s. %s Assumes: %s." % (json.dumps((c.get("BOUNDS") or {}).get("quick", c.get("BOUNDS"))), c["NOTE"], "; ".join(c["ASSUMPTIONS"]))))
    else:
        na.append(dict(property=pid, reason=REASON.get(pid, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Checks import hydraxmpm from /repo's working tree (pure Python, nothing to build). Known and repaired defects: KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
