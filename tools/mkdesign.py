#!/opt/venv/bin/python
"""Writes DESIGN.md from the tables, so that it says what the machinery does."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(name):
    d = {}
    for n in ast.parse(open(name).read()).body:
        if not isinstance(n, ast.Assign):
            continue
        try:
            v = ast.literal_eval(n.value)
        except ValueError:
            continue
        t = n.targets[0]
        if isinstance(t, ast.Tuple):
            d.update(zip([x.id for x in t.elts], v))
        elif isinstance(t, ast.Name):
            d[t.id] = v
    return d


def read(*p):
    return open(os.path.join(HERE, *p)).read()


# per property: (oracle, why simulation reaches what tests do not)
NOTES = {}
exec(read("tools", "design_notes.py"), globals())


def main():
    man = json.loads(read("MANIFEST.json"))
    props = [json.loads(l) for l in read("properties.jsonl").splitlines()]
    claimed = {c["property"]: c for c in man["checks"]}
    out = [read("tools", "design_head.md").rstrip(), "", "## 4. Property by property", ""]
    seeded = {}
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        seeded.setdefault(m["property"], []).append((os.path.basename(d), m))
    for p in props:
        if p["id"] not in claimed:
            continue
        c = consts(os.path.join(HERE, "dst", "props", p["id"].lower() + ".py"))
        oracle, reach = NOTES[p["id"]]
        out += ["### %s  %s" % (p["id"], p["title"]), "", p["statement"], "",
                "* **Quantifies over** " + p["quantifier"]["text"] + ".",
                "* **A run.** " + c["RULE"],
                "* **Oracle.** " + oracle,
                "* **Why the tests cannot.** " + p["why_tests_cant"] + " " + reach,
                "* **Real code:** %s. **Stubs:** %s." % ("; ".join(c["REAL"]), "; ".join(c["STUB"])),
                "* **Bounds and assumptions.** %s %s" % (
                    claimed[p["id"]]["level_note"], "; ".join(c.get("ASSUME") or ["none"]) + "."),
                "* **Cost.** quick %d cases, thorough %d. States counted: %s." % (c["QUICK"], c["THOROUGH"], c["MEASURE"]),
                "* **Anchors.** " + ", ".join("%s (%s)" % (x["name"], x["where"]) for x in p["anchors"]["mechanism"]) + ".",
                "* **Planted bugs it catches:** %s." % (", ".join(n for n, _ in seeded.get(p["id"], [])
                                                             if n not in MISSED) or "none kept"), ""]
    out += ["## 5. Not applicable", ""]
    out += ["* **%s** %s" % (n["property"], n["reason"]) for n in man["not_applicable"]] + [""]
    out += [read("tools", "design_tail.md").rstrip(), ""]
    out += ["### Planted bugs", "",
            "Each was written from the text of a property and the code; it passes the stable tests, and its demo fails with it and passes without it.", "",
            "| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    for pid in sorted(seeded):
        for n, m in seeded[pid]:
            out.append("| %s | %s | %s | %s | %s |" % (
                n, pid, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
                MISSED.get(n, pid + (", " + ALSO[n] if n in ALSO else ""))))
    out += ["", "### Defects found and repaired", "", "From `known_findings.txt`; nothing is recorded as unrepaired finding.", ""]
    for line in read("known_findings.txt").splitlines():
        if line.startswith("fixed: "):
            out.append("* " + line[len("fixed: property="):])
        elif line.startswith("finding: "):
            out.append("* **not repaired:** " + line[len("finding: property="):])
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
