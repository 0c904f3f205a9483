"""fills DESIGN.md's generated sections (rules from the checks, findings, seeds)"""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "meta"))
import props


def rules(pid):
    src = open(f"{ROOT}/aeslint/props/{pid.lower()}.py").read()
    return re.findall(r'chk\.rule\(\s*"([^"]+)",\s*"((?:[^"\\]|\\.)*)"', src)


def expl(pid):
    src = open(f"{ROOT}/aeslint/props/{pid.lower()}.py").read()
    m = re.search(r"^EXPL = \((.*?)\)\n", src, re.S | re.M)
    return eval("(" + m.group(1) + ")") if m else ""


out = []
for p in props.PROPS:
    out.append(f"### {p['id']} {p['title']}\n\n*Analysis.* {expl(p['id'])}\n\n*Quantified over* {p['quantifier']['text']}. *Tests cannot:* {p['why_tests_cant']}\n\n*Rules and oracle:*\n" +
               "\n".join(f"- `{n}`: {t}" for n, t in rules(p["id"])) + "\n")
k = json.load(open(f"{ROOT}/known_findings.json"))["findings"]
fixed = "\n".join(f"- {f['property']} `{f['commit']}` {f['what'].split(f['commit'])[-1].strip()}" for f in k if f["status"] == "fixed")
seen, known = set(), []
for f in k:
    if f["status"] == "known" and f["what"] not in seen:
        seen.add(f["what"])
        n = sum(1 for g in k if g["what"] == f["what"])
        known.append(f"- {f['property']}{f' ({n} instances)' if n > 1 else ''}: {f['what']}")
seeds = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
na = "\n".join(f"- {p['id']} {p['title']}: {p['reason']}" for p in props.NA) or "Every listed property is claimed."
t = open(f"{ROOT}/meta/design_template.md").read()
for a, b in (("PROPS", "\n".join(out)), ("FIXED", fixed), ("KNOWN", "\n".join(known)), ("SEEDS", "\n".join(seeds)), ("NA", na)):
    t = t.replace(f"@@{a}@@", b)
open(f"{ROOT}/DESIGN.md", "w").write(t)
