"""writes DESIGN.md: the text below, and for every property what its check
module says of itself"""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "design_text.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]


def const(node):
    try:
        return ast.literal_eval(node)
    except ValueError:
        return ast.unparse(node)


def module(i):
    t = ast.parse(open(os.path.join(ROOT, "checks", i + ".py")).read())
    v = {}
    hs = []
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ("OUTSIDE", "ASSUMPTIONS"):
            v[n.targets[0].id] = const(n.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(
                        d.func, "id", "") == "harness":
                    kw = {k.arg: const(k.value) for k in d.keywords
                          if k.arg not in ("witness",)}
                    hs.append((n.name, ast.get_docstring(n) or "", kw))
    return ast.get_docstring(t), v, hs


out = [HEAD]
seeded = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeded.setdefault(m["property"], []).append(
        (os.path.basename(os.path.dirname(f)), m["what_it_breaks"],
         m["needs"]))
known = [l for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"))
         if l.startswith("fixed:")]
for p in props:
    i = p["id"]
    doc, v, hs = module(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Claim.* %s\n" % p["statement"])
    out.append("*Decided by* `checks/%s.py`. %s\n" % (
        i, HOW.get(i, doc)))
    out.append("Harnesses (bounds as quick/thorough where they differ):\n")
    for name, d, kw in hs:
        b = ", ".join("%s=%s" % (k, "/".join(map(str, x)) if isinstance(
            x, tuple) else x) for k, x in sorted(kw.items()))
        out.append("- `%s`: %s%s" % (name, " ".join(d.split()),
                                     " [%s]" % b if b else ""))
    out.append("")
    if "OUTSIDE" in v:
        out.append("*Outside the claim:* %s.\n" % v["OUTSIDE"])
    if "ASSUMPTIONS" in v:
        out.append("*Assumes:* %s.\n" % "; ".join(v["ASSUMPTIONS"]))
    if i in COST:
        out.append("*Cost:* quick about %s on 8 cores.\n" % COST[i])
    fixed = [l.split(" ", 3)[3].strip() + " (%s)" % l.split(" ")[2]
             for l in known if "property=%s " % i in l]
    if fixed:
        out.append("*Found and repaired:* %s.\n" % "; ".join(fixed))
    if i in seeded:
        out.append("*Planted bugs (all caught by this check):* %s.\n" %
                   "; ".join("`%s` (%s)" % (n, b) for n, b, _ in seeded[i]))
out.append(TAIL)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
