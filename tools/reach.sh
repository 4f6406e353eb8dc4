#!/bin/bash
# Which lines of trappy no run of the checks reaches:  tools/reach.sh ["C01 C02 ..."] [CASES]
cd "$(dirname "$0")/.."
PROPS=${1:-$(ls dst/props/c*.py | sed 's/.*c\([0-9]*\).py/C\1/')}
T=$(mktemp -d)
for p in $PROPS; do DST_REACH=$T/hit dst/check.py $p --cases ${2:-400} > $T/out 2>&1 || tail -3 $T/out; done
sort -u $T/hit > $T/lines
/opt/venv/bin/python - $T/lines ${TRAPPY_REPO:-/repo}/trappy <<'P'
import ast, glob, os, sys
hit = {}
for l in open(sys.argv[1]):
    f, n = l.rsplit(":", 1)
    hit.setdefault(f, set()).add(int(n))
root = sys.argv[2]
for f in sorted(glob.glob(root + "/**/*.py", recursive=True)):
    src = open(f).read()
    rel = os.path.relpath(f, root)
    code = compile(src, f, "exec")
    lines, todo = {}, [code]
    while todo:
        c = todo.pop()
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                todo.append(k)
        if c.co_name != "<module>" and not (c.co_flags & 0x0002 == 0):
            for _, _, n in c.co_lines():
                if n and n != c.co_firstlineno:
                    lines[n] = c.co_name
    miss = sorted(n for n in lines if n not in hit.get(rel, ()))
    text = src.split("\n")
    print("%s: %d of %d lines in functions not reached" % (rel, len(miss), len(lines)))
    for n in miss:
        print("    %d %s: %s" % (n, lines[n], text[n - 1].strip()[:100]))
P
rm -r "$T"
