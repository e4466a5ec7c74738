#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json (run: lib/catalog.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking",
         technique="", note=""):
    P.append({
        "prop": {"id": pid, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                 "anchors": {"files": files,
                             "mechanism": [{"name": n, "where": w} for n, w in mech],
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                             "observe_at": list(observe), "hook_needed": None}},
        "check": {"property": pid, "quick_cmd": "bin/check %s --tier quick" % pid,
                  "thorough_cmd": "bin/check %s --tier thorough" % pid,
                  "technique": technique, "level": level, "level_note": note}})


TLA = "TLA+ specification checked with TLC; traces recorded from the real code validated against it (behaviours generated by TLC)"
exec(open(os.path.join(V, "lib", "catalog_entries.py")).read())

if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["prop"]["title"]) <= 80, p["prop"]["id"]
            f.write(json.dumps(p["prop"]) + "\n")
    man = {"version": 1, "setup_cmd": "bin/setup",
           "hooks": {"guard": "GNSS_CONVERTERS_VERIF", "enable": "no hooks are needed: /repo carries none; the checks "
                     "link the repository's sources with stand-ins for the absent submodules", "source_commits": []},
           "checks": [p["check"] for p in P], "not_applicable": NA,
           "notes": "TLA+ with TLC. Every check compiles /repo's working tree. See DESIGN.md."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties")
