"""Rewrites the generated part of DESIGN.md (sections 3 to 5) from known_findings.json, seeded/ and limits.md."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated below by tools/design_tables.py -->"
p = os.path.join(here, "DESIGN.md")
head = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n"
out = [open(os.path.join(here, "tools", "limits.md")).read().rstrip(), ""]
kf = json.load(open(os.path.join(here, "known_findings.json")))
by = {}
for line in kf["fixed"]:
    rest = line.split("property=", 1)[1]; pid = rest.split()[0]
    by.setdefault(pid, []).append(rest.split(" ", 1)[1])
out += ["## 4. Genuine defects", "",
        f"{len(kf['fixed'])} defects found by these checks were repaired in `/repo` (one `fix:` commit each; `known_findings.json` is the",
        f"authoritative list), {len(kf['findings'])} are recorded unrepaired. Per property (commit, what failed):", ""]
for pid in sorted(by):
    out.append(f"* **{pid}** " + "; ".join(f"`{x.split(' ', 1)[0]}` {x.split(' ', 1)[1]}" for x in by[pid]))
out += ["", "## 5. Planted bugs", "",
        "Each is in `seeded/<id>/` with a demonstration, and is caught by the quick check of the property named.", "",
        "| id | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); c = lambda s: s.replace("|", "/").replace("\n", " ")
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
open(p, "w").write(head + "\n".join(out) + "\n")
