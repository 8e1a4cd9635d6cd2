"""Generate DESIGN.md from tools/DESIGN.tmpl.md, the property modules and the seeded bug results."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lit(node):
    return " ".join(str(ast.literal_eval(node)).split()) if not isinstance(node, ast.List) else "; ".join(ast.literal_eval(node))


def props():
    out = []
    for line in open(f"{V}/properties.jsonl"):
        p = json.loads(line)
        f = f"{V}/props/{p['id']}.py"
        out.append(f"### {p['id']} {p['title']}\n")
        if not os.path.exists(f):
            continue
        t = ast.parse(open(f).read())
        d = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
        doc = ast.get_docstring(t).split("\n", 1)
        how = " ".join(doc[1].split()) if len(doc) > 1 else ""
        if how:
            out.append(f"*Decision:* {how}\n")
        out.append("*Scenarios (each explored symbolically over all feasible paths):*\n")
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and any("scenario" in ast.dump(x) for x in n.decorator_list):
                claims = []
                for x in ast.walk(n):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith("claim") and x.args \
                            and isinstance(x.args[0], ast.Constant) and x.args[0].value not in claims:
                        claims.append(x.args[0].value)
                s = ast.get_docstring(n)
                out.append(f"- `{n.name}`: {' '.join(s.split()) + ' ' if s else ''}claims {', '.join(map(str, claims)) or '(in helper)'}")
        out.append("")
        for k, l in (("BOUNDS", "Bounds"), ("OUTSIDE", "Outside"), ("ASSUMPTIONS", "Assumptions/stubs")):
            if k in d:
                try:
                    out.append(f"*{l}:* {lit(d[k])}\n")
                except ValueError:
                    pass
    return "\n".join(out)


def seeded():
    rf = f"{V}/tools/seeded_results.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
    for i in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        r = res.get(i, {})
        c = "; ".join(r.get("by", [])) if r.get("caught") else ("**missed**" if r else "not run")
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
    return "\n".join(rows)


def main():
    k = json.load(open(f"{V}/known_findings.json"))
    f = "\n".join("- " + x for x in k["fixed"]) + "\n\nRecorded, not repaired:\n\n" + \
        ("\n".join(f"- property={x['property']} scenario={x['scenario']} claim={x['claim']}: {x['what']}" for x in k["findings"]) or "- none")
    na = json.load(open(f"{V}/MANIFEST.json"))["not_applicable"]
    s = open(f"{V}/tools/DESIGN.tmpl.md").read()
    s = s.replace("PROPERTY_TABLE", props()).replace("FINDINGS", f).replace("SEEDED", seeded())
    s = s.replace("NOT_APPLICABLE", "\n".join(f"- {x['property']}: {x['reason']}" for x in na) or "- none")
    open(f"{V}/DESIGN.md", "w").write(s)


main()
