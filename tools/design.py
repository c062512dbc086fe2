"""writes the generated parts of DESIGN.md: rules per property, planted changes per check"""
import sys, os, re, json, glob
sys.path.insert(0, os.path.dirname(__file__)); sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "engine"))
import props
from rules.registry import PROPS
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = {}
for f in sorted(glob.glob(V + "/engine/rules/*.py")):
    for m in re.finditer(r'R\.rule\("([A-Z]\d\d\.\w+)",\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', open(f).read()):
        rules[m.group(1)] = ("".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))), os.path.basename(f))
out = ["### Decided properties", ""]
for q in props.PROPS:
    i = q["id"]
    out += ["**%s. %s** (`engine/rules/%s`)" % (i, q["title"], "`, `".join(sorted(set(m for m, _ in PROPS[i][1]))) + ".py"), "", q["why"] + " Rules:", ""]
    out += ["- `%s`: %s." % (r, t) for r, (t, _) in sorted(rules.items()) if r.startswith(i + ".")]
    out += [""]
out += ["### Not applicable", ""]
out += ["- **%s. %s**: %s" % (q["id"], q["title"], q["na"]) for q in props.NA]
seeds = ["| change | property, caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append("| `%s` | %s | %s | %s |" % (d.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read()
for name, text in (("RULES", out), ("SEEDS", seeds)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(text) + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
