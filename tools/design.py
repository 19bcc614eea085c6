"""DESIGN.md = tools/design/head.md + list of repairs (known_findings.json) + planted bugs (seeded/*/meta.json, tools/design/caught.json) + tail.md"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
out = [R("tools/design/head.md").rstrip() + "\n"]
d = json.loads(R("known_findings.json"))
o = ["## 6 Genuine defects found and repaired", "",
     "Every one was shown on the real code by a check and repaired by a minimal `fix:` commit in `/repo` (the existing suite passes unedited). The check",
     "reports it again when the fix is reverted. `known_findings.json` holds the same list; %s." % ("no defect is left open (`known` is empty)" if not d["known"] else "open findings are listed there under `known`"),
     "", "| property | commit | what failed |", "|---|---|---|"]
for l in d["fixed"]:
    p, c, w = l.split("property=", 1)[1].split(" ", 2)
    o.append("| %s | %s | %s |" % (p, c, w))
out.append("\n".join(o) + "\n")
caught = json.loads(R("tools/design/caught.json"))
o = ["## 7 Planted bugs", "",
     "Each is a change to the library that compiles and passes the 89 tests, with a demonstration that fails with it and passes without it",
     "(`seeded/<id>/`). The last column is what the checks did when it was applied.", "",
     "| id | property | needs | checks that report it |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "?")))
extra = os.path.join(V, "tools/design/mutation.md")
if os.path.exists(extra):
    o += ["", open(extra).read().rstrip()]
out.append("\n".join(o) + "\n")
out.append(R("tools/design/tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
