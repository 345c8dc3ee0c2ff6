"""Writes properties.jsonl and MANIFEST.json from meta/props.py (run by hand)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import NA, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
TECH = "symbolic execution of the real Python source, assertions decided by SAT/SMT (z3, kissat-style CNF)"
NOTE = ("Every value within the bounds listed in evidence/{id}.json (bounds, one line per instance) is decided by the solver on an encoding "
        "made from /repo/src at run time; counterexamples and sampled path witnesses are replayed on the unmodified code. {extra}"
        "Trusted: the interpreter's model of Python and numpy operations (symex/), z3.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "python3-vt setup.py",
           "checks": [], "not_applicable": []}
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["files"] + [x for m in p["mech"] for x in m[1].split(", ") if "/" in x]:
            assert os.path.exists("/repo/" + a.split(":")[0]), a
        extra = p.get("note", "")
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
            "technique": "symbolic execution of the real code + SAT/SMT (z3)",
            "level": "model_checking",
            "level_note": NOTE.format(id=p["id"], extra=extra + " " if extra else "")})
    for p in NA:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(PROPS), "claimed", len(NA), "not applicable")


if __name__ == "__main__":
    main()
