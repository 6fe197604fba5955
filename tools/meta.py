"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with seeded schedule and fault search"
P = []   # filled by tools/props_*.py


def prop(id, title, statement, over, text, why, files, mech, note, claimed=True, na=None, state=None):
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _claimed=claimed, _na=na))


def main():
  import props
  props.define(prop)
  with open(os.path.join(V, "properties.jsonl"), "w") as fd:
    for p in P: fd.write(json.dumps({ k: v for k, v in p.items() if not k.startswith("_") }) + "\n")
  checks = []
  for p in P:
    if not p["_claimed"]: continue
    checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} --tier quick", thorough_cmd=f"bash check.sh {p['id']} --tier thorough",
                       technique=TECH, level="exploration", level_note=p["_note"]))
  m = dict(version=1, setup_cmd="bash check.sh --setup", checks=checks,
           not_applicable=[ dict(property=p["id"], reason=p["_na"]) for p in P if not p["_claimed"] ])
  with open(os.path.join(V, "MANIFEST.json"), "w") as fd: json.dump(m, fd, indent=1); fd.write("\n")
  for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)


if __name__ == "__main__": main()
