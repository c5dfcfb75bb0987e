#!/usr/bin/env python3
"""Mutation campaign: how many small changes to quickly do the checks notice?

usage: mutate.py OUT.jsonl N [SEED [JOBS [FILE...]]]

Makes N random small changes (one at a time) to the lines the checks execute,
in scratch copies of /repo; changes that the existing tests notice are left
out; for the others the quick checks that execute the line are run, until one
reports a violation.  Appends a line to OUT for every change.  A development
tool, no check uses it.
"""
import ast, glob, json, multiprocessing, os, pickle, random, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut/base"     # a copy of /repo
PY = "/opt/venv/bin/python"
CHECKS = ["C%02d" % i for i in range(1, 30) if os.path.exists(VERIF + "/vt/checks/c%02d.py" % i)]
FIRST = {   # checks most likely to judge a module
    "node.py": "C01 C02", "numbering.py": "C19", "duration.py": "C13 C16", "pitch.py": "C11 C10 C14", "key.py": "C12", "time.py": "C17",
    "transpose.py": "C14", "relative.py": "C15", "rhythm.py": "C16", "dom/edit.py": "C22 C16", "dom/scope.py": "C18", "dom/indent.py": "C06",
    "dom/markup.py": "C23", "dom/scm.py": "C08", "lang/scheme.py": "C08", "dom/htm.py": "C09", "lang/html.py": "C09", "dom/tex.py": "C09", "lang/latex.py": "C09",
    "dom/element.py": "C05 C07 C20", "dom/base.py": "C03 C20", "dom/lily.py": "C23 C20 C03 C21", "lang/lilypond.py": "C23 C03 C21", "dom/util.py": "C04 C05 C06",
}


def mutations(src):
    """Yield (lineno, start, end, replacement, description)."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*span(n))].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0]); docs.add(n.body[0].value)
    def sub(n, new, what):
        s, e = span(n)
        return (n.lineno, s, e, new, "%s: %s -> %s" % (what, text(n)[:80].replace("\n", " "), new[:80].replace("\n", " ")))
    OPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for x in ast.walk(f):
                infunc.add(x)
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield sub(n, "%s %s %s" % (text(n.left), OPS[type(n.ops[0])], text(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}.get(type(n.op))
            if o and not isinstance(n.left, ast.Constant) or o and not isinstance(getattr(n.left, "value", None), str):
                yield sub(n, "(%s %s %s)" % (text(n.left), o, text(n.right)), "binop")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            yield sub(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
            i = random.randrange(len(n.values))
            yield sub(n.values[i], "True" if isinstance(n.op, ast.And) else "False", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield sub(n, "(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield sub(n, "(%s)" % text(n.operand), "minus")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n, ast.If):
                yield sub(n.test, "False", "never")
            yield sub(n.test, "not (%s)" % text(n.test), "negate")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield sub(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield sub(n, str(n.value + random.choice((1, -1))), "number")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n in infunc and "\n" not in text(n) and random.random() < .4:
            yield sub(n, repr(n.value + "x"), "string")
        elif isinstance(n, ast.Expr) and n in infunc and not isinstance(n.value, ast.Constant):
            yield sub(n, "pass", "delete")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n in infunc:
            yield sub(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield sub(n, "return None", "return")
        elif isinstance(n, ast.Continue):
            yield sub(n, "pass", "continue")
        elif isinstance(n, ast.Break):
            yield sub(n, "pass", "break")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            s = pos(n.args[0].lineno, n.args[0].col_offset); e = pos(n.args[1].end_lineno, n.args[1].end_col_offset)
            yield (n.lineno, s, e, text(n.args[1]) + ", " + text(n.args[0]), "swap args: " + text(n)[:80])
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield sub(n.lower, "", "slice")
            if n.upper is not None:
                yield sub(n.upper, "", "slice")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and n in infunc:
            yield sub(n.type, "ZeroDivisionError", "except")
        elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", None), ast.Load):
            e = random.choice(n.elts)
            rest = [text(x) for x in n.elts if x is not e]
            o, c = "()" if isinstance(n, ast.Tuple) else "[]"
            yield sub(n, o + ", ".join(rest) + ("," if o == "(" else "") + c, "drop element")


def reach(cache):
    if os.path.exists(cache):
        return pickle.load(open(cache, "rb"))
    out = {}
    for c in CHECKS:
        f = tempfile.mktemp()
        p = subprocess.run([VERIF + "/check.sh", c, "quick"], env=dict(os.environ, VT_REACH=f), capture_output=True, text=True)
        m = re.search(r"([\d.]+)s$", p.stdout.split("\n")[0])
        out[c] = (pickle.load(open(f, "rb")), float(m[1]))
        os.remove(f)
    pickle.dump(out, open(cache, "wb"))
    return out


def one(job):
    i, path, (line, s, e, new, desc), todo = job
    root = "/tmp/mut/w%d" % (multiprocessing.current_process()._identity[0])
    if not os.path.exists(root):
        os.makedirs(root)
        shutil.copytree(BASE, root + "/r", symlinks=True)
        shutil.copytree(VERIF, root + "/v", symlinks=True, ignore=shutil.ignore_patterns(".git", "replays", "evidence", "seeded"))
    f = root + "/r/quickly/" + path
    src = open(BASE + "/quickly/" + path, "rb").read()
    mut = src[:s] + new.encode() + src[e:]
    res = dict(i=i, path=path, line=line, desc=desc)
    try:
        try:
            compile(mut, f, "exec")
        except (SyntaxError, ValueError):
            return dict(res, result="invalid")
        open(f, "wb").write(mut)
        env = dict(os.environ, PYTHONPATH=root + "/r", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=root + "/r", VT_JOBS="1", VERIF_SEED="1")
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=root + "/r", env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(res, result="tests")
        if "13 passed" not in p.stdout:
            return dict(res, result="tests")
        odd = []
        for c in todo[:6]:
            try:
                p = subprocess.run(["./check.sh", c, "quick"], cwd=root + "/v", env=env, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                odd.append((c, "timeout")); continue
            if p.returncode == 1:
                m = re.search(r"^  (\[.*)", p.stdout, re.M)
                return dict(res, result="caught", by=c, how=m and m[1][:160], odd=odd, after=todo.index(c))
            if p.returncode:
                odd.append((c, p.returncode, p.stdout[-200:]))
        return dict(res, result="survived", ran=todo, odd=odd)
    finally:
        open(f, "wb").write(src)


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    files = sys.argv[5:]
    random.seed(seed)
    r = reach("/tmp/mut-reach.pickle")
    cand = []
    for f in sorted(glob.glob(BASE + "/quickly/**/*.py", recursive=True)):
        path = os.path.relpath(f, BASE + "/quickly")
        if files and path not in files:
            continue
        for m in mutations(open(f).read()):
            who = [c for c in r if (path, m[0]) in r[c][0]]
            if not who:
                continue
            first = FIRST.get(path, "").split()
            who.sort(key=lambda c: (first.index(c) if c in first else 99, r[c][1]))
            cand.append((path, m, who))
    print(len(cand), "candidates")
    random.shuffle(cand)
    work = [(i, *x) for i, x in enumerate(cand[:n])]
    with multiprocessing.Pool(jobs) as pool, open(out, "a") as o:
        for res in pool.imap_unordered(one, work):
            o.write(json.dumps(res) + "\n"); o.flush()


main()
