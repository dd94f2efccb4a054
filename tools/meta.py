#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level="model_checking",
         technique="exhaustive stateless exploration of the real code against a reference model",
         note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, level=level,
                  technique=technique, note=note, observe=observe))


G = "mpact/sim/generic/"
D = "mpact/sim/decoder/"
M = "mpact/sim/util/memory/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism":
                       [dict(name=n, where=w) for n, w in p["mech"]],
                       "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=anchors)) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    na = {n["property"] for n in NA}
    man = dict(version=1,
               setup_cmd="python3 tools/meta.py --check",
               checks=[dict(property=p["id"],
                            quick_cmd=f"python3 check.py {p['id']} --tier quick",
                            thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                            evidence_file=f"evidence/{p['id']}.json",
                            technique=p["technique"], level=p["level"],
                            level_note=p["note"]) for p in P if p["id"] not in na],
               not_applicable=NA,
               notes="check.py builds each harness (harness/, harness/mc.*) with "
               "the sources of /repo it drives and explores it; see DESIGN.md. "
               "No hooks were added to /repo.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    if "--check" in sys.argv:
        import shutil
        for t in ("clang++-18", "ar", "protoc"):
            if not shutil.which(t):
                sys.exit("missing tool: " + t)
        print("ok")
    else:
        main()
