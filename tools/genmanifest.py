"""writes MANIFEST.json from properties.jsonl, the checks present and the
reasons below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(ROOT, "tools", "na.py")).read()) if os.path.exists(
    os.path.join(ROOT, "tools", "na.py")) else None
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "bin/check %s --tier quick" % i,
            "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the real Python "
                         "source with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs and "
                "every shape within the bounds the evidence file states; "
                "nothing is claimed outside them. Trusts z3, the engine in "
                "sx/ and its models of built-ins, which are checked against "
                "the real code by replaying solver models of explored paths; "
                "counterexamples are reported only after they reproduce on "
                "the unmodified code.",
        })
    else:
        na.append({"property": i, "reason": NA.get(
            i, "no check has been built for it yet")})
json.dump({
    "version": 1, "setup_cmd": "bin/setup", "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed: the checks instrument /repo's source on "
             "load. KNOWN_FINDINGS.txt lists defects found and repaired.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
