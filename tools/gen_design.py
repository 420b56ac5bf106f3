#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design.md and the tables kept elsewhere."""
import ast, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/vt/c_*.py")):
    for n in ast.parse(open(f).read()).body:
        for d in getattr(n, "decorator_list", []):
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "check":
                kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                rows.append((ast.literal_eval(d.args[0]), n.name, kw.get("quick", ""), kw.get("thorough", "x10"), os.path.basename(f)[2:-3],
                             " ".join((ast.get_docstring(n) or "").split())))
order = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
rows.sort(key=lambda r: order.index(r[0]))
checks = "`Q`: cases of a quick run; the text gives what is generated and compared and the rule for a non-trivial case.\n\n| property | check (module) | Q | content / non-trivial when |\n|---|---|---|---|\n"
checks += "\n".join("| %s | `%s` (%s) | %s | %s |" % (p, n, m, q, d.replace("|", "/")) for p, n, q, t, m, d in rows)
fixed = "\n".join("* " + l[len("fixed: property="):] for l in json.load(open(root + "/known_findings.json"))["fixed"])
seeded = "| bug | caught by | breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeded += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"] + m.get("note", ""), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
text = open(root + "/tools/design.md").read()
mut = open(root + "/tools/mutation_notes.md").read() if os.path.exists(root + "/tools/mutation_notes.md") else "see git history."
text = text.replace("@@CHECKS@@", checks).replace("@@FIXED@@", fixed).replace("@@SEEDED@@", seeded).replace("@@MUT@@", mut)
text = text.replace("The 76\ndefects", "The %d\ndefects" % len(json.load(open(root + "/known_findings.json"))["fixed"]))
text = text.replace("The 73 properties", "The %d properties" % len(order))
open(root + "/DESIGN.md", "w").write(text)
