"""writes DESIGN.md from spec/design_text.md, the contracts and the planted bugs"""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); os.chdir(HERE)
import contracts
from engine import contract as K
contracts.load_all()
def one(s): return " ".join((s or "").split())
out = []
for l in open("properties.jsonl"):
    p = json.loads(l); cs = [c for c in K.CONTRACTS.values() if c.prop == p["id"]]
    out.append(f"### {p['id']} — {p['title']}\n")
    n = sum(1 for c in cs if c.sym and not c.bounded); b = sum(1 for c in cs if c.sym and c.bounded); k = len(cs) - n - b
    f = sorted({t for c in cs for t in c.targets})
    out.append(f"{n} contracts proved without bound, {b} proved with a bound, {k} concrete. Functions: " + ", ".join(f"`{t}`" for t in f) + "\n")
    for c in cs:
        how = ("proved" if not c.bounded else f"proved, bounded: {c.bounded}") if c.sym else f"concrete{': ' + c.bounded if c.bounded else ''}"
        d = one(c.fn.__doc__)
        out.append(f"* `{c.name}` ({how}){' — ' + d if d else ''}" + (f" [{one(c.note)}]" if c.note else "") + (f" observed by {', '.join(c.observed_by)}" if c.observed_by else ""))
    out.append("")
caught = json.load(open("spec/caught.json"))
s = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    s.append(f"| {i} | {m['property']}: {one(m['what_it_breaks'])} | {one(m['needs'])} | {caught.get(i, 'not run')} |")
t = open("spec/design_text.md").read().replace("@SEEDS@", "\n".join(s)).replace("@PROPS@", "\n".join(out))
open("DESIGN.md", "w").write(t)
