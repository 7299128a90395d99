"""Assembles DESIGN.md from design_head.md, design_notes.json-like python dict, the checks, fixes and catches."""
import json, os, re, subprocess
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(x) for x in open("properties.jsonl")]
ns = {}
exec(open("tools/design_notes.py").read(), ns)
N = ns["NOTES"]
fixes = {}
for l in open("tools/fixes.txt"):
    h, p = l.split()[:2]
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], capture_output=True, text=True).stdout.strip()
    fixes.setdefault(p, []).append(s)
known = {}
for p, m, t in json.load(open("tools/known.json")):
    known.setdefault(p, []).append((m, t))
out = [open("tools/design_head.md").read(), "## Properties\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    n = N.get(i, {})
    f = f"checks/{i}.py"
    if not os.path.exists(f):
        out.append("Not built yet.\n" + n.get("how", "") + "\n")
        continue
    if n.get("how"):
        out.append("*How.* " + n["how"].strip() + "\n")
    src = open(f).read()
    fam = re.findall(r'@ck.family\("(\w+)", (\d+), (\d+)\)', src)
    out.append("*Cases (quick / thorough).* " + ", ".join(f"{a} {b}/{c}" for a, b, c in fam) + ".\n")
    if n.get("out"):
        out.append("*Out of domain / no opinion.* " + n["out"].strip() + "\n")
    if n.get("false"):
        out.append("*False alarms corrected.* " + n["false"].strip() + "\n")
    if i in fixes:
        out.append("*Genuine defects repaired.* " + "; ".join(fixes[i]) + ".\n")
    for m, t in known.get(i, []):
        out.append(f"*Known finding* `{m}`: {t}\n")
out.append(open("tools/design_tail.md").read())
rows = []
for d in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = f"seeded/{d}/meta.json"
    if os.path.exists(m):
        j = json.load(open(m))
        c = ns["CATCHES"].get(d, "caught")
        rows.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {c} |")
out.append("## Planted bugs\n\n`seeded/<id>`; the last column says what the check of the property did.\n\n| id | property | breaks | needs | result |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
open("DESIGN.md", "w").write("\n".join(out))
