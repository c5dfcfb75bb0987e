r"""C18: variables resolve to the assignment LilyPond would use."""
import contextlib
import io
import itertools
import os
import posixpath
import shutil
import tempfile
from urllib.parse import quote

import parce
import quickly
from parce.transform import Transformer

from vt.core import Stream
from quickly.dom import lily, read, base
from quickly.dom.scope import Scope
from quickly.lang import lilypond
from quickly.time import Time

PROPERTY = "C18"
RULE = ("Generated sets of files (in folders, with every kind of include path, relative or not, with search folders, missing, empty, circular "
        "and repeated includes, special characters in the names, files that are not ready yet) with assignments of every kind of "
        "value, at the toplevel and in nested blocks, are executed statement by statement, as LilyPond does, with an environment of "
        "variables. The library is asked for the value of every reference that is reached, in every chain of includes; the "
        "position of the value, and the chain of includes it was found through must be those of the assignment in the environment. "
        "The same for references without scope, references that are chased to the end, and documents that are "
        "modified with set_variable and unset_variable. "
        "Non-trivial: a reference with more than one candidate or via an include; distinct by the files.")
ASSUMPTIONS = ["variables set in a \\paper or \\layout block are not used in a later block of the same kind",
               "if a file is already being included, the next file with that name in the search path is used, as documented"]
NEED = ("reference", "found", "not found", "found in included", "found in includer", "found in sibling include", "shadowed", "block reference",
        "found outside block", "path reference", "quoted reference", "alias chased", "circular skipped", "missing include", "empty include", "included twice",
        "search path", "not relative", "special name", "no scope", "not waited", "real files", "folder in the way", "changed file", "markup reference", "file url", "unsaved",
        "include in block", "time ends", "set then referenced", "reparsed references")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


NAMES = ["foo", "baz", "musicA", "title", "composer", "one", "titled", ("foo", "baz"), ("foo", 1), ("foo", "c"), "foo bar", "flat-b",
         ("foo", "baz", 2), ("musicA", "x y"), "ünï", "a1", ("baz", 1)]


def is_plain(s):
    return isinstance(s, str) and s in ("foo", "baz", "musicA", "title", "composer", "one", "titled", "flat-b", "ünï", "x")


def name_text(rng, name, ref=False):
    parts = (name,) if isinstance(name, str) else name
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, int):
            out.append(str(p))
        elif not is_plain(p) or rng.random() < .1:
            out.append('"%s"' % p)
        else:
            out.append(p)
    if ref:
        return "\\" + ".".join(out)
    sep = "." if rng.random() < .8 or any(isinstance(p, int) for p in parts) else " . "
    return sep.join(out)


# ---- files

class F:
    """A file: text, and its statements with positions."""
    def __init__(self, rng, names, includes, depth=0, allow_include=True):
        self.parts = []
        self.length = 0
        self.rng = rng
        self.names = names
        self.includes = includes
        self.refs = {}          # pos -> name
        self.stmts = self.statements(rng.choice([0, 1, 3, 5, 7, 9]), 0)

    def add(self, text):
        pos = self.length
        self.parts.append(text)
        self.length += len(text)
        return pos

    @property
    def text(self):
        return "".join(self.parts)

    def name(self, block=False):
        while True:
            n = self.rng.choice(self.names)
            if not block or isinstance(n, str):
                return n

    def statements(self, n, level, inc=True):
        rng = self.rng
        out = []
        for _ in range(n):
            r = rng.random()
            if r < .36:
                out.append(self.assign(level))
            elif r < .58 and self.includes and inc:
                name = rng.choice(self.includes)
                c = "%{ x %} " if rng.random() < .1 else ""
                pos = self.add("\\include ")
                self.add('%s"%s"' % (c, name))
                self.add("\n")
                out.append(("include", pos, name))
            elif level:
                out.append(self.assign(level))
            elif r < .8:
                out.extend(self.music())
                self.add("\n")
            elif r < .9:
                kind = rng.choice([r"\header", r"\header", r"\paper", r"\layout", r"\midi"])
                self.add(kind + " {\n")
                out.append(("block", kind, self.statements(rng.choice([1, 2, 4]), level + 1, kind[1] in "lm")))
                self.add("}\n")
            elif not level:
                self.add(rng.choice(["\\score {\n", "\\book { \\score {\n"]))
                two = "book" in self.parts[-1]
                body = []
                if rng.random() < .3:
                    self.add("\\header {\n")
                    body.append(("block", "\\header", self.statements(2, 2, False)))
                    self.add("}\n")
                body.extend(self.music())
                if rng.random() < .5:
                    self.add(" \\layout {\n")
                    body.append(("block", "\\layout", self.statements(2, 2)))
                    self.add("}\n")
                self.add("}\n" + "}\n" * two)
                out.append(("block", "\\score", body))
            else:
                out.append(self.assign(level))
            if rng.random() < .1:
                self.add(rng.choice(["% comment\n", "%{ foo = 1 %}\n", '\n\n'] if level else ["% comment\n", "%{ foo = 1 %}\n", '\n\n', '\\version "2.24.0"\n', '#(define foo 1)\n']))
        return out

    def ref(self, name=None, markup=False):
        name = name or self.name()
        if markup:
            while not is_plain(name):
                name = self.name()
        pos = self.add(name_text(self.rng, name, True) if not markup else "\\" + name)
        return ("ref", pos, name, markup)

    def value(self, block):
        """Add a value, return (pos, statements in the value, alias ref or None)."""
        rng = self.rng
        r = rng.random()
        if r < .2:
            return self.add(str(rng.randint(1, 99))), [], None
        if r < .35:
            return self.add('"x%d"' % rng.randint(1, 99)), [], None
        if r < .45:
            return self.add(rng.choice(["#t", "##f", "#'(1 2)", "#(list foo)"])), [], None
        if r < .68:
            ref = self.ref()
            return ref[1], [ref], ref
        if r < .8 or block:
            pos = self.add(rng.choice([r"\markup { ", r"\markup \bold { "]))
            refs = []
            for _ in range(rng.randint(0, 2)):
                self.add(rng.choice(["x ", "\\italic ", ""]))
                refs.append(self.ref(markup=True))
                self.add(" ")
            self.add("y }")
            return pos, refs, None
        stmts = self.music()
        return self.mpos, stmts, None

    def music(self):
        rng = self.rng
        a, z = rng.choice([("{ ", "}"), ("<< ", ">>"), (r"\relative c' { ", "}"), (r"\new Staff { ", "}"),
                           (r"\new Staff << { ", "} >>"), ("{ { ", "} }"), (r"\transpose c d { ", "}")])
        mpos = self.add(a)
        out = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            self.add(rng.choice(["c4 ", "d8 e ", "r2 ", "<c e>4 ", "s1*1/2 ", ""]))
            out.append(self.ref())
            self.add(" ")
        self.add(z)
        self.mpos = mpos
        return out

    def assign(self, level):
        rng = self.rng
        name = self.name(block=level > 0)
        self.add(name_text(rng, name))
        self.add(rng.choice([" = ", " = ", "= ", " =\n  ", " ="]))
        pos, stmts, alias = self.value(level > 0)
        self.add("\n")
        return ("assign", name, pos, stmts, alias)


def join(base_file, name):
    """The filename of name relative to the file base_file."""
    return posixpath.normpath(posixpath.join(posixpath.dirname(base_file), name))


class Run:
    """Execute the statements of the root file and everything it includes."""
    LIMIT = 400

    def __init__(self, files, root, root_url=None, relative=True, path=(), scope=True, unready=()):
        self.files = files
        self.root = root
        self.saved = root_url is not None
        self.relative = relative
        self.path = path
        self.scope = scope
        self.unready = unready
        self.result = {}        # (chain, pos) -> (chain, pos) or None
        self.aliases = {}       # (chain, pos) -> True: the value at that position is a reference
        self.stats = []
        self.included = {}      # (chain, pos) -> filename or None
        self.count = 0
        self.size = {}
        self.max_size = 0
        self.too_large = False
        chain = ((root, None),)
        self.run(files[root].stmts, chain, [{}])

    def resolve(self, chain, name):
        files = [f for f, p in chain]
        active = set(files if self.saved else files[1:])
        candidates = []
        if self.relative and (len(files) > 1 or self.saved):
            candidates.append(join(files[-1], name))
        if self.saved:
            candidates.append(join(files[0], name))
        candidates.extend(join(p + "/x", name) for p in self.path)
        skipped = False
        for c in candidates:
            if c in active:
                skipped = True
            elif c in self.files and (c != self.root or self.root in self.files):
                self.stats.append("search path" if c not in candidates[:2] else "include")
                if not self.relative:
                    self.stats.append("not relative")
                if any(x in name for x in "#?% "):
                    self.stats.append("special name")
                return c
        self.stats.append("circular skipped" if skipped else "missing include")

    def run(self, stmts, chain, env):
        for s in stmts:
            self.count += 1
            if self.count > self.LIMIT:
                self.too_large = True
                return
            if s[0] == "assign":
                _, name, pos, sub, alias = s
                self.run(sub, chain, env)
                # the number of steps to evaluate the value completely
                size = 1
                for s in sub:
                    w = self.result.get((chain, s[1]))
                    size += self.size.get(w, 1)
                self.size[chain, pos] = size
                self.max_size = max(self.max_size, size)
                old = env[-1].get(name)
                env[-1][name] = (chain, pos, (old[2] + 1) if old else 1)
                if alias:
                    self.aliases[chain, pos] = True
            elif s[0] == "ref":
                _, pos, name, markup = s
                for depth, e in enumerate(reversed(env)):
                    if name in e:
                        c, p, n = e[name]
                        self.result[chain, pos] = c, p
                        self.note(chain, c, n, depth, len(env), name, markup)
                        break
                else:
                    self.result[chain, pos] = None
                    self.stats.append("not found")
            elif s[0] == "block":
                self.run(s[2], chain, env + [{}])
            elif s[0] == "include" and self.scope:
                _, pos, name = s
                f = self.resolve(chain, name)
                self.included[chain, pos] = f
                if f is not None and f not in self.unready:
                    if not self.files[f].stmts:
                        self.stats.append("empty include")
                    if len(env) > 1:
                        self.stats.append("include in block")
                    self.run(self.files[f].stmts, chain + ((f, pos),), env)

    def note(self, chain, c, n, depth, level, name, markup):
        a = self.stats.append
        a("found")
        if n > 1:
            a("shadowed")
        if level > 1:
            a("found outside block" if depth else "block reference")
        if not isinstance(name, str):
            a("path reference")
        elif not is_plain(name):
            a("quoted reference")
        if markup:
            a("markup reference")
        if c == chain:
            return
        if chain[:len(c)] == c:
            a("found in includer")
        elif c[:len(chain)] == chain:
            a("found in included")
        else:
            a("found in sibling include")


def make_files(rng, real):
    """Return (files, root, search path)."""
    dirs = ["", "sub/", "inc/", "sub/deep/"]
    if rng.random() < .3:
        dirs.append(rng.choice(["d#x/", "a b/", "p?q/", "50%20/"]))
    bases = ["a.ly", "b.ily", "c.ily", "vars.ily", "vars", "x.inc"]
    if rng.random() < .35:
        bases = bases[:3] + rng.sample(["n#1.ly", "m n.ly", "e%41.ily", "q?.ly", "ü.ily", "c:d.ly"], 2)
    n = rng.choice([1, 2, 3, 3, 4, 5])
    paths = set()
    while len(paths) < n:
        d = rng.choice(dirs)
        paths.add(d + rng.choice(bases))
    paths = sorted(paths)
    root = rng.choice(paths)
    names = rng.sample(NAMES, rng.choice([2, 3, 4, 6]))
    if not any(is_plain(x) for x in names):
        names.append("foo")
    files = {}
    for p in paths:
        inc = []
        for q in paths:
            d = posixpath.relpath(q, posixpath.dirname(p) or ".")
            inc.append(rng.choice([d, d, posixpath.basename(q), q, "./" + d]))
            if d.startswith("../"):
                inc.append(d)
        inc += rng.choice([[], ["missing.ily", "nope/a.ly"], [""]])
        inc = rng.sample(inc, min(len(inc), rng.choice([1, 2, 3])))
        if n == 1 and rng.random() < .5:
            inc = []
        files[p] = F(rng, names, inc)
    path = [d.rstrip("/") for d in rng.sample(dirs[1:], rng.choice([0, 1, 2]))]
    return files, root, path


class Stub:
    """A document, as a factory returns it."""
    def __init__(self, url, text, ready=True):
        self.url = url
        self.text = text
        self.ready = ready
        self.dom = None
        self.waits = []

    def __len__(self):
        return len(self.text)

    def get_transform(self, wait=False):
        self.waits.append(wait)
        if not wait and not self.ready:
            return None
        if self.dom is None:
            self.dom = read.lily_document(self.text, True) if self.text else lily.Document()
        return self.dom


def chain_of(scope, prefix):
    out = []
    while scope:
        url = scope.document().url
        if url and url.startswith(prefix):
            url = url[len(prefix):]
        out.append((url, scope.node.pos if scope.node is not None else None))
        scope = scope.parent
    return tuple(reversed(out))


def references(dom):
    return [n for n in dom.descendants() if isinstance(n, lily.Reference)]


def observe(mon, run, scope, prefix, root_key, wait=True, budget=500):
    """Compare all references, in all files reached, with the model."""
    def norm(chain):
        return ((root_key, None),) + chain[1:]

    def info():
        return dict(files={f: F_.text for f, F_ in run.files.items()}, root=run.root, path=list(run.path), relative=run.relative,
                    unready=sorted(run.unready))

    def visit(scope, dom, chain):
        nonlocal budget
        for n in dom.descendants():
            if isinstance(n, lily.Include):
                if (chain, n.pos) not in run.included:
                    continue
                new = scope.include_scope(n.filename, n)
                want = run.included[chain, n.pos]
                mon.ev("include followed")
                if want is None:
                    mon.check(new is None, "include-found", "an include finds a file it should not find",
                              include=n.filename, chain=chain, got=new and new.document().url, **info())
                    continue
                got = new and norm(chain_of(new, prefix))
                mon.check(got == chain + ((want, n.pos),), "include-file", "an include finds another file than LilyPond would",
                          include=n.filename, chain=chain, want=want, got=got, **info())
                d = new.document().get_transform(wait)
                if isinstance(d, lily.Document):
                    visit(new, d, chain + ((want, n.pos),))
            elif isinstance(n, lily.Reference) and (chain, n.pos) in run.result:
                if budget <= 0:
                    continue
                budget -= 1
                want = run.result[chain, n.pos]
                mon.ev("reference")
                if not wait:
                    mon.ev("not waited")
                r = n.get_value_with_scope(scope, wait)
                v = n.get_value(scope, wait)
                if want is None:
                    mon.check(r is None and v is None, "value-found", "a reference that has no value finds one",
                              reference=n.write(), pos=n.pos, chain=chain, got=r and (r[0].write(), r[0].pos, chain_of(r[1], prefix)), **info())
                    continue
                mon.check(r is not None, "value-missing", "the value of a reference is not found",
                          reference=n.write(), pos=n.pos, chain=chain, want=want, **info())
                got = norm(chain_of(r[1], prefix)), r[0].pos
                mon.check(got == want, "value", "a reference has the value of another assignment",
                          reference=n.write(), pos=n.pos, chain=chain, want=want, got=got, **info())
                mon.check(v is r[0], "get-value", "get_value and get_value_with_scope differ", reference=n.write(), **info())
                # follow aliases to the end
                key = want
                steps = 0
                while r and isinstance(r[0], lily.Reference) and (key in run.aliases or isinstance(r[0], lily.IdentifierRef)):
                    mon.check(key in run.result, "alias", "a variable is a reference where it should not be", reference=n.write(), at=key, **info())
                    key = run.result[key]
                    r = r[0].get_value_with_scope(r[1], wait)
                    got = r and (norm(chain_of(r[1], prefix)), r[0].pos)
                    mon.check(got == key, "alias-value", "an alias resolves to another assignment",
                              reference=n.write(), pos=n.pos, chain=chain, want=key, got=got, **info())
                    mon.ev("alias chased")
                    steps += 1
                    mon.check(steps < 300, "alias-circular", "an alias does not end", reference=n.write(), **info())
            elif isinstance(n, (lily.MusicList, lily.SimultaneousMusicList)) and budget > 0 and not isinstance(n, lily.Reference) and mon_time:
                budget -= 1
                Time(scope, wait).length(n)
                mon.ev("time ends")
    mon_time = wait and run.max_size < 200
    root = scope.document().get_transform(True)
    if isinstance(root, lily.Document):
        visit(scope, root, ((root_key, None),))


def note(mon, run, files, root, extra=()):
    for s in run.stats:
        mon.ev(s)
    seen = [f for f in run.included.values() if f]
    if len(seen) > len(set(seen)):
        mon.ev("included twice")
    for e in extra:
        mon.ev(e)
    if "shadowed" in run.stats or any(s.startswith("found in") for s in run.stats):
        mon.nontrivial(sorted((f, x.text) for f, x in files.items()), root, run.path)
    mon.sample({"root": root, "path": list(run.path), "files": {f: x.text for f, x in files.items()}})


def graph_case(rng, mon):
    """Files that are supplied by a factory."""
    files, root, path = make_files(rng, False)
    prefix = rng.choice(["/home/x/ly/", "/my/own/music/", "/home/m#y/ly/"])
    relative = rng.random() < .8
    unready = [f for f in files if f != root and rng.random() < .25] if rng.random() < .4 else []
    r = rng.random()
    url = prefix + root
    key = root
    extra = []
    if r < .12:
        url = "file://" + quote(prefix + root)
        extra.append("file url")
    elif r < .22:
        url = None
        extra.append("unsaved")
    docs = {}
    def factory(filename):
        if not filename.startswith(prefix) or filename[len(prefix):] not in files:
            if rng2 < .5:
                raise rng.choice((FileNotFoundError, PermissionError, IsADirectoryError, TimeoutError, OSError))(filename)
            return None
        if filename not in docs:
            f = filename[len(prefix):]
            docs[filename] = Stub(filename, files[f].text, f not in unready)
        return docs[filename]
    rng2 = rng.random()
    rdoc = Stub(url, files[root].text)
    run = Run(files, root, url, relative, path)
    if run.too_large:
        mon.ev("too large")
        return
    dom = rdoc.get_transform(True)
    scope = Scope(rdoc, factory=factory)
    scope.relative_include = relative
    scope.include_path.extend(prefix + p + rng.choice(["", "/"]) for p in path)
    note(mon, run, files, root, extra)
    if url is None:
        # the document is not in a file, so the file may be included
        pfx = prefix
    if r < .12:
        # the scope's url is a file url: compare the chain without the root
        pass
    observe(mon, run, scope, prefix, key)
    # without scope
    alone = Run(files, root, url, relative, path, scope=False)
    for n in references(dom):
        want = alone.result.get((((root, None),), n.pos), 0)
        if want == 0:
            continue
        mon.ev("no scope")
        got = n.get_value_with_scope()
        mon.check((got and got[0].pos) == (want and want[1]), "no-scope", "without scope, a reference does not find the assignment in the document",
                  text=files[root].text, reference=n.write(), pos=n.pos, want=want, got=got)
        mon.check(got is None or got[1] is None, "no-scope-scope", "without scope, a scope is returned", text=files[root].text, got=got)
    if unready and not run.too_large:
        # not waiting for files that are not ready
        for d in docs.values():
            d.dom = None
            d.waits.clear()
        run = Run(files, root, url, relative, path, unready=unready)
        observe(mon, run, scope, prefix, key, wait=False, budget=100)
        for d in docs.values():
            mon.check(not any(d.waits), "waited", "a lookup with wait=False waits for a document", url=d.url)


def write_files(top, files):
    for f, x in files.items():
        p = os.path.join(top, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as fp:
            fp.write(x.text)


def files_case(rng, mon):
    """Real files in a folder."""
    files, root, path = make_files(rng, True)
    run = Run(files, root, root, True, path)
    if run.too_large:
        mon.ev("too large")
        return
    top = tempfile.mkdtemp(prefix="vt-c18-")
    try:
        os.makedirs(os.path.join(top, "top"))
        extra = ["real files"]
        prefix = os.path.join(top, "top") + "/"
        write_files(prefix, files)
        for p in path:
            os.makedirs(prefix + p, exist_ok=True)
        for d in list(files):
            os.makedirs(os.path.dirname(prefix + d), exist_ok=True)
        # folders that have the name of an included file are not included
        for n in sorted({n for x in files.values() for n in x.includes}):
            for d in sorted({*files, *(p + "/x" for p in path)}):
                f = join(d, n)
                if f not in files and not f.startswith("..") and not os.path.exists(prefix + f) and rng.random() < .3:
                    os.makedirs(prefix + f)
                    extra = ["real files", "folder in the way"]
        doc = quickly.load(prefix + root, "lilypond")
        scope = Scope(doc)
        scope.include_path.extend(prefix + p + rng.choice(["", "/"]) for p in path)
        note(mon, run, files, root, extra)
        observe(mon, run, scope, prefix, root, budget=60)
        if len(files) > 1 and rng.random() < .6:
            # one of the files changes
            f = rng.choice([f for f in files if f != root])
            seen = files[f]
            files = dict(files)
            files[f] = F(rng, seen.names, seen.includes)
            run = Run(files, root, root, True, path)
            if not run.too_large:
                write_files(prefix, {f: files[f]})
                st = os.stat(prefix + f)
                os.utime(prefix + f, (st.st_atime, st.st_mtime + 5))
                scope2 = Scope(doc, factory=scope.factory)
                scope2.include_path = scope.include_path
                note(mon, run, files, root, ["changed file"])
                observe(mon, run, scope2, prefix, root, budget=60)
    finally:
        shutil.rmtree(top)


def make_value(rng, k, inside):
    r = rng.choice([0, 1, 3, 4] if inside else [0, 1, 2, 3, 4])
    if r == 0:
        return k, lily.Int, k
    if r == 1:
        return "x%d" % k, lily.String, "x%d" % k
    if r == 2:
        v = lily.MusicList(lily.Note("c"), lily.Note("d"))
    elif r == 3:
        v = lily.Markup("markup", lily.MarkupList(lily.MarkupWord("m%d" % k)))
    else:
        v = lily.String("y%d" % k)
    return v, type(v), v.write()


def modify_case(rng, mon):
    """Set and unset variables, and refer to them."""
    names = rng.sample(NAMES, rng.choice([1, 2, 3]))
    doc = lily.Document()
    if rng.random() < .5:
        header = lily.Header()
        doc.append(header)
    else:
        header = None
    model = [["header", []]] if header is not None else []      # [kind, ...] parallel to the children
    hist = []
    k = 0
    for step in range(rng.choice([2, 5, 9])):
        inside = header is not None and rng.random() < .3
        target, items = (header, next(m for m in model if m[0] == "header")[1]) if inside else (doc, model)
        name = rng.choice([n for n in names if isinstance(n, str)] or ["foo"]) if inside else rng.choice(names)
        r = rng.random()
        if r < .45:
            k += 1
            value, cls, text = make_value(rng, k, inside)
            target.set_variable(name, value)
            hist.append(("set", inside, name, str(value)))
            for m in reversed(items):
                if m[0] == "assign" and m[1] == name:
                    m[2] = cls, text
                    break
            else:
                items.append(["assign", name, (cls, text)])
        elif r < .6:
            target.unset_variable(name)
            hist.append(("unset", inside, name))
            items[:] = [m for m in items if not (m[0] == "assign" and m[1] == name)]
        elif r < .75:
            # a second assignment
            k += 1
            i = rng.randint(0, len(items))
            target.insert(i, lily.Assignment.with_name(name, lily.Int(k)))
            items.insert(i, ["assign", name, (lily.Int, k)])
            hist.append(("insert", inside, i, name, k))
        else:
            ref = lily.IdentifierRef.with_name(name)
            i = rng.randint(0, len(items))
            if inside:
                other = "r%d" % step
                target.insert(i, lily.Assignment.with_name(other, ref))
                items.insert(i, ["assign", other, (lily.IdentifierRef, ref.write()), name])
            else:
                target.insert(i, lily.MusicList(ref))
                items.insert(i, ["music", name])
            hist.append(("ref", inside, i, name))

    def expected(items, env):
        out = []
        env = env + [{}]
        for m in items:
            if m[0] == "header":
                out.extend(expected(m[1], env))
            elif m[0] == "music" or len(m) == 4:
                name = m[-1] if len(m) == 4 else m[1]
                out.append((name, next((e[name] for e in reversed(env) if name in e), None)))
            if m[0] == "assign":
                env[-1][m[1]] = m[2]
        return out

    want = expected(model, [])

    def compare(tree, what):
        refs = [n for n in tree.descendants() if isinstance(n, lily.Reference) and not (n.parent and isinstance(n.parent, lily.MarkupList))]
        mon.check(len(refs) == len(want), "references-lost", "there are other references " + what, history=hist, text=tree.write())
        for n, (name, w) in zip(refs, want):
            mon.ev("set then referenced" if what == "in the document" else "reparsed references")
            mon.check(n.get_name() == name, "reference-name", "a reference has another name " + what, history=hist, text=tree.write(), name=n.get_name(), want=name)
            v = n.get_value()
            if w is None:
                mon.check(v is None, "set-found", "a reference finds a variable that is not set " + what, history=hist, text=tree.write(), name=name, got=v)
            else:
                cls, text = w
                ok = type(v) is cls and (v.head == text if cls in (lily.Int, lily.String) and not (isinstance(text, str) and text.startswith('"')) else v.write() == text)
                mon.check(ok, "set-value", "a reference does not find the value that was set " + what, history=hist, text=tree.write(), name=name, want=w, got=v)
        # the value of the variable is that of the last assignment
        for tgt, items in [(tree, model)] + [(h, m[1]) for m in model if m[0] == "header" for h in tree / lily.Header]:
            for name in names:
                last = next((m for m in reversed(items) if m[0] == "assign" and m[1] == name), None)
                v = tgt.get_variable(name)
                if last is None:
                    mon.check(v is None, "variable-unset", "get_variable returns a variable that is not set " + what, history=hist, name=name, got=v)
                else:
                    cls, text = last[2]
                    if cls in (lily.Int, lily.String):
                        ok = v == (text[1:-1] if isinstance(text, str) and text.startswith('"') else text)
                    else:
                        ok = type(v) is cls and v.write() == text
                    mon.check(ok, "variable", "get_variable does not return what was set " + what, history=hist, name=name, got=v, want=last[2])
    compare(doc, "in the document")
    text = doc.write_indented()
    tree = read.lily_document(text, True)
    compare(tree, "in the document that is written and read")
    if any(w for n, w in want):
        mon.nontrivial(repr(hist))
    mon.sample({"history": hist, "text": text})


STREAMS = {
    "graph": Stream(graph_case, 6000, 100000),
    "files": Stream(files_case, 300, 6000),
    "modify": Stream(modify_case, 4000, 80000),
}
