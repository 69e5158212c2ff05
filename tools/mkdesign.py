#!/usr/bin/env python3
"""Fills DESIGN.md's per-property and planted-bug sections from design.md.in, the checks' rules and seeded/*/meta.json."""
import ast
import importlib.util
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
spec = importlib.util.spec_from_file_location("mkmanifest", ROOT / "tools" / "mkmanifest.py")


def rules(path):
    tree = ast.parse(path.read_text())
    names = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.targets[0], ast.Name):
            names[n.targets[0].id] = n.value.value
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) == 2 \
                and isinstance(n.args[0], ast.Name) and n.args[0].id in names and isinstance(n.args[1], ast.Constant):
            out.append((names[n.args[0].id], n.args[1].value))
    return out


def main():
    src = (ROOT / "tools" / "design.md.in").read_text()
    ns = {}
    exec(compile((ROOT / "tools" / "mkmanifest.py").read_text().replace("\nmain()\n", "\n"), "mkmanifest", "exec"), {"__file__": str(ROOT / "tools" / "x"), "__name__": "x"}, ns)
    out = []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        i = p["id"]
        f = ROOT / "checks" / f"{i.lower()}.py"
        if not f.exists():
            continue
        out.append(f"### {i} {p['title']}\n")
        out.append(f"*Technique:* {ns['TECH'][i]}. *Reach and bounds:* {ns['NOTE'][i].strip()}\n")
        rs = rules(f)
        for name, text in rs:
            out.append(f"* `{name}`: {text}")
        out.append("")
    seeds = []
    for d in sorted((ROOT / "seeded").iterdir()) if (ROOT / "seeded").exists() else []:
        m = json.loads((d / "meta.json").read_text())
        seeds.append(f"* {m['property']} — `{d.name}`: {m['what_it_breaks']} ({m.get('caught', 'caught')})")
    (ROOT / "DESIGN.md").write_text(src.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))


main()
