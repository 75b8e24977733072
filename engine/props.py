"""Source of properties.jsonl and MANIFEST.json (run: python3 engine/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # not claimed


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or [], state=state or []))


def na(pid, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason, observe=[], state=[]))


exec(open(os.path.join(V, "engine", "props_text.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as o:
        for p in sorted(P + NA, key=lambda p: p["pid"]):
            assert len(p["title"]) <= 80, p["title"]
            o.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                            "observe_at": p["observe"], "state": p["state"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash engine/setup.sh",
         "checks": [{"property": p["pid"], "quick_cmd": "./check.sh %s quick" % p["pid"], "thorough_cmd": "./check.sh %s thorough" % p["pid"],
                     "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]} for p in sorted(P, key=lambda p: p["pid"])],
         "not_applicable": [{"property": p["pid"], "reason": p["reason"]} for p in NA],
         "notes": "All checks decide from the current C++ sources: engine/cdecfacts.cc exports the resolved program, rules/*.py judge it. Nothing from /repo is executed."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
