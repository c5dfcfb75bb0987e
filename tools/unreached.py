"""Development aid: list the lines of quickly that no quick check executes.

usage: for p in C01 ... C22; do VT_REACH=/tmp/reach/$p.pickle ./check.sh $p quick; done
       python tools/unreached.py /tmp/reach/*.pickle
"""
import ast
import os
import pickle
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
reach = set()
for fn in sys.argv[1:]:
    with open(fn, "rb") as f:
        reach |= pickle.load(f)
names = {f for f, l in reach}

for base, dirs, files in sorted(os.walk(os.path.join(REPO, "quickly"))):
    for fn in sorted(files):
        if not fn.endswith(".py"):
            continue
        path = os.path.join(base, fn)
        rel = os.path.relpath(path, os.path.join(REPO, "quickly"))
        text = open(path).read()
        hit = {l for f, l in reach if f in (rel, path, os.path.join("quickly", rel))}
        lines = text.splitlines()
        miss = []
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, (ast.FunctionDef,)):
                for st in ast.walk(node):
                    if isinstance(st, ast.stmt) and st is not node and st.lineno not in hit:
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                            continue
                        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)):
                            continue
                        miss.append((st.lineno, node.name))
        if miss:
            print("==", rel)
            done = set()
            for l, name in sorted(miss):
                if l not in done:
                    done.add(l)
                    print("  %5d %-28s %s" % (l, name, lines[l - 1]))
