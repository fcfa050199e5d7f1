"""Writes DESIGN.md from the property list, the technique table, the rules in the checks and tools/design/*.md."""
import json
import os
import re

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(top, "properties.jsonl"))]
tech = json.load(open(os.path.join(top, "tools", "techniques.json")))
more = json.load(open(os.path.join(top, "tools", "design", "details.json")))


def part(n):
    return open(os.path.join(top, "tools", "design", n)).read().rstrip() + "\n"


def rules(i):
    f = os.path.join(top, "checks", i.lower() + ".py")
    if not os.path.exists(f):
        return []
    s = open(f).read()
    out = []
    for m in re.finditer(r'rep\.rule\("([\w-]+)",\s*((?:"(?:[^"\\]|\\.)*"\s*)+)', s):
        out.append((m.group(1), "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2)))))
    return out


print(part("intro.md"))
print("## Properties\n")
for p in props:
    i = p["id"]
    t = tech.get(i, {})
    d = more.get(i, {})
    print("### %s %s\n" % (i, p["title"]))
    if not rules(i):
        print("Not applicable: %s\n" % (t.get("na") or t["note"]))
        continue
    print("* **Decided by** %s." % t["technique"].rstrip("."))
    print("* **Rules**")
    for n, r in rules(i):
        print("    * `%s`: %s." % (n, r.rstrip(".")))
    if d.get("oracle"):
        print("* **Oracle** %s" % d["oracle"])
    print("* **Bounds and trust** %s" % t["note"])
    if d.get("limits"):
        print("* **Not decided** %s" % d["limits"])
    print("* **Reach** %s" % p["why_tests_cant"])
    if d.get("cost"):
        print("* **Cost** %s" % d["cost"])
    print()
print(part("findings.md"))
print("## Defects found and fixed\n")
print("| property | commit | what failed |\n|---|---|---|")
for l in open(os.path.join(top, "known-findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        print("| %s | %s | %s |" % m.groups())
print()
print(part("bugs.md"))
