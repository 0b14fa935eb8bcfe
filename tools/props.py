#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe,
      technique=None, level="exploration", note="", na=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    PROPS.append(dict(
        rec={"id": id, "title": title, "statement": statement,
             "quantifier": {"over": over, "text": text},
             "why_tests_cant": why,
             "anchors": {"files": files,
                         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                         "observe_at": observe, "hook_needed": hook}},
        technique=technique, level=level, note=note, na=na))


from proplist import *  # noqa: E402,F401,F403


def main():
    ids = [p["rec"]["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    PROPS.sort(key=lambda p: p["rec"]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["rec"]) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 tools/check.py --build-only",
         "hooks": {"guard": "SPU_VMC_HOOKS",
                   "enable": "tools/check.py compiles /repo's sources with -DSPU_VMC_HOOKS",
                   "source_commits": HOOK_COMMITS},
         "checks": [], "not_applicable": [], "notes": NOTES}
    for p in PROPS:
        i = p["rec"]["id"]
        if p["na"]:
            m["not_applicable"].append({"property": i, "reason": p["na"]})
        else:
            m["checks"].append({
                "property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": p["technique"], "level": p["level"],
                "level_note": p["note"]})
            from checks import CHECKS
            assert CHECKS[i].get("level", "exploration") == p["level"], i
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import jsonschema
    main()
    S = "/root/.vp/"
    if os.path.isdir(S):
        v = json.load(open(S + "MANIFEST.schema.json"))
        jsonschema.validate(json.load(open(ROOT + "/MANIFEST.json")), v)
        v = json.load(open(S + "PROPERTIES.schema.json"))
        for l in open(ROOT + "/properties.jsonl"):
            jsonschema.validate(json.loads(l), v)
    print(len(PROPS), "properties")
