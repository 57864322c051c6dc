"""Fills the generated sections of DESIGN.md (from DESIGN.in.md, the checks, known findings and the planted bugs)."""
import ast, json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{R}/DESIGN.in.md").read()
man = {p["id"] if "id" in p else p["property"]: p for p in json.load(open(f"{R}/MANIFEST.json"))["checks"]}
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
cost = json.load(open(f"{R}/tools/cost.json"))
o = []
for p in props:
    i = p["id"]
    t = ast.parse(open(f"{R}/mc/checks/{i.lower()}.py").read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "BOUNDS"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    doc = (ast.get_docstring(t) or "").replace("\n", " ")
    m = man[i]
    o.append(f"### {i} {p['title']}\n"
             f"- Decided by: {m.get('technique','')} ({m.get('level','')}).\n"
             f"- Explored and oracle: {c.get('RULE') or doc}\n"
             f"- Bounds, quick: {c['BOUNDS']['quick']}. Thorough: {c['BOUNDS']['thorough']}.\n"
             f"- Cost: {cost.get(i,'?')}.\n"
             f"- Beyond the tests: {p['why_tests_cant']}\n")
s = s.replace("@@PROPS@@", "\n".join(o))
s = s.replace("@@FIXED@@", "\n".join("- " + f[7:] for f in json.load(open(f"{R}/known_findings.json"))["fixed"]))
res = json.load(open(f"{R}/tools/seeded_results.json"))
rows = ["| bug | property | caught by | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append(f"| {b} | {m['property']} | {res.get(b, '?')} | {m['needs'][:160].replace('|','/')} |")
s = s.replace("@@SEEDED@@", "\n".join(rows))
open(f"{R}/DESIGN.md", "w").write(s)
