"""Fill the generated tables of DESIGN.md from known_findings.json and planted.json."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(f"{D}/known_findings.json"))
pl = json.load(open(f"{D}/tools/planted.json"))
esc = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
fixed = "\n".join(f"- {e['property']} {e['id'][4:]}: {e['what']}" for e in kf if e.get("fixed"))
known = "\n".join(f"- {e['id']} ({e['property']}): {e['what']}" for e in kf if not e.get("fixed")) or "- none"
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for k in sorted(pl):
    if not os.path.isdir(f"{D}/seeded/{k}"): continue
    v = pl[k]
    rows.append(f"| {k} | {esc(v.get('needs',''))} | {esc(v.get('breaks',''))} | {esc(v['by']) if v.get('caught') else 'NOT CAUGHT'} |")
t = open(f"{D}/DESIGN.md").read()
for tag, body in (("FIXED", fixed), ("KNOWN", known), ("SEEDED", "\n".join(rows))):
    t = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n{body}\n<!-- /{tag} -->", t, flags=re.S)
open(f"{D}/DESIGN.md", "w").write(t)
