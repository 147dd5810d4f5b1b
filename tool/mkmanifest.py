"""writes MANIFEST.json from props.json and the contracts (run by hand after adding units)"""
import json, os, glob, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import emit as E
P = json.load(open(os.path.join(ROOT, "props.json")))
U = {}
for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "*.vc"))):
    c = E.Contract(f)
    for p in c.head.get("props", "").split():
        U.setdefault(p, []).append(c)
checks = []
for p in sorted(P["claimed"]):
    d = P["claimed"][p]
    us = U.get(p, [])
    names = sorted(set(c.head["ns"] + "::" + c.head["name"] for c in us if c.head.get("kind") != "ctor"))
    proved = set(c.head["name"] for c in us)
    bounded = [f for f in d["functions"] if f.split("::")[-1].split("(")[0] not in proved]
    if d["level"] == "proof":
        note = "Proved for all inputs (contracts on the extracted real code, Verus/Z3): " + ", ".join(names) + ". "
        tech = "contract-based deductive verification (Verus contracts on mechanically extracted real code); executable contracts for counterexample replay"
    else:
        note = ("Proved for all inputs: " + ", ".join(names) + ". " if names else "")
        tech = "contract-based deductive verification where it reaches, executable contracts run on the real code (bounded) elsewhere"
    if bounded:
        note += "Bounded only (executable contract on the real code, never counted as proved): " + ", ".join(bounded) + ". "
    note += d.get("note", "") + " Trusted: the C++-to-Verus extraction (tool/trans.py), container and library contracts in tool/prelude.rs, clang, Verus, Z3."
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": d["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(P["not_applicable"].items())],
     "notes": "No hooks in /repo: the extraction and the harnesses take the sources as they are. See DESIGN.md; known_findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", {p: len(U.get(p, [])) for p in sorted(P["claimed"])})
