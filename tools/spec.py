#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/spec.py` in /verif after editing; both files are committed.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

TF = "transitfeed/"


def P(id, title, statement, over, text, why, files, mechanism, observe,
      technique, note, state=None, level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mechanism=mechanism, observe=observe,
                technique=technique, note=note, state=state or [], level=level)


def m(name, where):
    return {"name": name, "where": where}


PROPS = []
exec(open(os.path.join(HERE, "props_data.py"), encoding="utf-8").read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            rec = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": p["state"],
                    "mechanism": p["mechanism"],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if not os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            pass
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s" % p["id"],
            "thorough_cmd": "python3 run.py %s" % p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        })
    na = list(NOT_APPLICABLE)
    claimed = set(c["property"] for c in checks)
    listed = claimed | set(n["property"] for n in na)
    for p in PROPS:
        if p["id"] not in listed:
            na.append({"property": p["id"], "reason": "check not built yet"})
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks run the unmodified code of /repo under Jython 2.7 "
                 "(the only interpreter here that runs it) from /verif/run.py; "
                 "no hooks were needed, so no guard variable exists.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
