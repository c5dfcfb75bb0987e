r"""C22: a live document keeps its tree in step with the text."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile

import quickly
import parce
import parce.work
import parce.treebuilder
from parce.transform import Transformer

from vt.core import Stream
from vt.lygen import LyGen
from vt.docgen import HtmGen, TexGen
from vt.scmgen import ScmGen
from vt.util import tree_diff, sig
from vt.checks import c05
from fractions import Fraction

from quickly import duration, relative, rhythm, transpose
from quickly.dom import read, lily, base, element, edit
from quickly.node import Range
from quickly.pitch import Pitch

PROPERTY = "C22"
RULE = ("Live documents (parce.Document with a running transformer) of generated LilyPond, Scheme, HTML and LaTeX text are "
        "edited at random: typing, deleting, pasting, undoing, damaging brackets and repairing them, interleaved with the "
        "library's own edit operations on the document or on a selection. Monitors after every step: the live tree equals, "
        "including positions and parent links, the tree of a fresh document with the same text; writing the live tree back "
        "edits nothing; an operation gives the same text as in a fresh document with the same text and selection, whatever "
        "entry point is used, changes nothing outside the selection, and visits exactly the nodes selected. Non-trivial: "
        "histories in which the tree changed; distinct by the trees passed through.")
ASSUMPTIONS = ["parce lexes incrementally correctly: a step after which its own tokens differ from those of a fresh document is skipped",
               "the transformer runs synchronously; its invalidation method is replaced by one that does not raise KeyError (a parce defect)",
               "unchanged subtrees of a tree obtained before the last edit are not looked at any more"]
NEED = ("live equals fresh", "positions equal", "parents right", "no pending edits", "tree changed", "undone", "html", "latex", "scheme",
        "operation", "operation on selection", "outside selection kept", "same as fresh", "entry points", "visited nodes",
        "repeated operation", "empty document", "readonly kept", "changes counted", "block of a node", "visited from cursor", "part of the document", "loaded ly", "loaded tex", "loaded htm")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


class SafeTransformer(Transformer):
    def invalidate_node(self, node):
        while node.parent:
            self._cache.pop(node, None)
            node = node.parent


def live(lexicon, text):
    w = parce.work.Worker(parce.treebuilder.TreeBuilder(lexicon), SafeTransformer())
    return quiet(parce.Document, lexicon, text, worker=w)


def tokens(tree):
    return [(t.pos, t.text, t.action) for t in tree.tokens()] if tree else []


def fresh_tree(lexicon, text):
    """Return (tokens, tree) from scratch; keeps the token tree alive as well."""
    root = parce.root(lexicon, text)
    return root, quiet(Transformer().transform_tree, root)


def places(tree):
    """Positions of all nodes, and whether the parent links are right."""
    out, bad = [], []
    def visit(n):
        out.append((type(n).__name__, n.pos, n.end))
        for c in list.__iter__(n):
            if c.parent is not n:
                bad.append((type(n).__name__, type(c).__name__))
            visit(c)
    visit(tree)
    return out, bad


def compare(mon, doc, lexicon, history, key):
    """Compare the live tree of the document to a fresh one; return the fresh tree or None."""
    text = doc.text()
    root, fresh = fresh_tree(lexicon, text)
    if tokens(root) != tokens(doc.get_root(True)):
        mon.ev("skipped: parce tokens")
        return None
    tree = quiet(doc.get_transform, True)
    if tree is None or fresh is None:
        if text:
            mon.check(tree is fresh, key + "-none", "no tree", text=text, history=history)
        mon.ev("empty")
        return None
    d = tree_diff(tree, fresh)
    mon.check(d is None, key, "live tree differs from that of a fresh document: %s" % d, text=text, history=history)
    mon.ev("live equals fresh")
    a, bad = places(tree)
    b, _ = places(fresh)
    mon.check(not bad, key + "-parent", "parent links are wrong: %r" % bad[:4], text=text, history=history)
    mon.ev("parents right")
    if a != b:
        x = next(x for x in zip(a, b) if x[0] != x[1])
        mon.fail(key + "-position", "position differs: live %r, fresh %r" % x, text=text, history=history)
    mon.ev("positions equal")
    e = list(tree.edits(doc.get_root(True)))
    f = list(fresh.edits(root))     # e.g. to add a missing closing bracket
    mon.check(e == f, key + "-edits", "live tree has other edits than a fresh one: %r %r" % (e[:3], f[:3]), text=text, history=history)
    mon.ev("no pending edits")
    return fresh


INSERTS = {
    "ly": ("", "", " ", "\n", "{", "}", "<", ">", "<<", ">>", "c", "c4 d ", "8", ".", "'", ",", "~", "(", ")", "\\", "%", "%{ x %}", "\"", "\" s \"",
           "#", "#{ c4 #}", "#'(a b)", "\\markup { x }", "-.", "^", "_\\f", "\\relative ", "\\tuplet 3/2 ", "\\time 3/4 ", "= ", "x = ", "2\\mm ",
           "-\\markup \\bold ", "\\lyricmode { a b }", "<c e>", "-1", "\\rest", "\\tweak color #red ", "[", "]", "| ", "es", "!", "?", "*2/3", ":32"),
    "scm": ("", " ", "(", ")", "'", "`", "\"", "a", "1", "#t", "#(", ";", "\n", "#{ c #}", "#!", "!#", ".", "1/2"),
    "htm": ("", " ", "<", ">", "<p>", "</p>", "<lilypond>", "</lilypond>", "&amp;", "\"", "=", "/", "<!--", "-->", "x", "<lilypond: c d />", "c'", "{", "}"),
    "tex": ("", " ", "{", "}", "[", "]", "\\", "\\begin{lilypond}", "\\end{lilypond}", "%", "\n", "$", "\\lilypond{ c }", "x", "\\textbf{y}", "c4"),
}


def an_edit(rng, text, kind, undo):
    """Return (pos, end, text), a random edit."""
    k = rng.random()
    if k < .12 and undo:
        return undo.pop()
    n = len(text)
    a = rng.randrange(n + 1)
    b = min(n, a + rng.choice((0, 0, 0, 1, 1, 2, 5, 20, 60)))
    if k < .3:  # at a word border
        borders = [m.start() for m in re.finditer(r"\b|(?<=[{}<>()])|$", text)]
        a = rng.choice(borders)
        b = rng.choice([x for x in borders if x >= a][:rng.choice((1, 2, 3, 6))])
    if k > .9:  # move a piece
        c = rng.randrange(n + 1)
        return a, b, text[c:c + rng.choice((1, 5, 20))]
    ins = rng.choice(INSERTS[kind])
    return a, b, ins


def history(rng, mon, lexicon, kind, text, steps, key):
    doc = live(lexicon, text)
    hist, undo = [text], []
    sigs = []
    changed = 0
    last = compare(mon, doc, lexicon, hist, key)
    for _ in range(steps):
        t = doc.text()
        n = len(undo)
        a, b, ins = an_edit(rng, t, kind, undo)
        if n > len(undo):
            mon.ev("undone")
        else:
            undo.append((a, a + len(ins), t[a:b]))
        hist.append((a, b, ins))
        try:
            quiet(doc.__setitem__, slice(a, b), ins)
        except Exception as e:
            # is it parce or quickly that raises?
            try:
                fresh_tree(lexicon, t[:a] + ins + t[b:])
            except Exception:
                mon.ev("skipped: does not parse from scratch either")
                return
            mon.fail(key + "-raises", "edit raises %r" % e, text=t, history=hist)
        f = compare(mon, doc, lexicon, hist, key)
        if f is not None and last is not None and tree_diff(f, last):
            changed += 1
            mon.ev("tree changed")
        if f is not None:
            last = f
            sigs.append(str(sig(f)))
    if changed:
        mon.nontrivial(kind, tuple(sigs))


def lytext(rng, size=None):
    g = LyGen(rng, comments=rng.choice((0, .05, .1)), size=size or rng.choice((.4, .6, 1)))
    return g.document(rng.randint(1, 2), rng.randint(1, 3))


def case_typing(rng, mon):
    history(rng, mon, c05.LY[0], "ly", lytext(rng), 8, "live")
    mon.ev("lilypond")


def case_other(rng, mon):
    k = rng.randrange(3)
    if k == 0:
        history(rng, mon, c05.SC[0], "scm", ScmGen(rng).document(rng.randint(1, 4))[0], 8, "live-scm")
        mon.ev("scheme")
    elif k == 1:
        history(rng, mon, c05.HT[0], "htm", HtmGen(rng).document()[0], 8, "live-htm")
        mon.ev("html")
    else:
        history(rng, mon, c05.TX[0], "tex", TexGen(rng).document()[0], 8, "live-tex")
        mon.ev("latex")


# every operation: a function returning a new Edit instance
def operations(rng):
    names = "cdefgab"
    def pitch():
        return Pitch(rng.randint(-1, 1), rng.randrange(7), rng.choice((0, 0, .5, -.5, 0)))
    p, q = pitch(), pitch()
    durs = rng.choice(([(Fraction(1, 4), 1)], [(Fraction(1, 8), 1), (Fraction(3, 8), Fraction(2, 3)), None], [None, (2, 1)]))
    dots = rng.choice((1, -1))
    ops = (
        ("transpose", lambda: transpose.Transpose(transpose.Transposer(p, q))),
        ("rel2abs", lambda: relative.Rel2abs()),
        ("abs2rel", lambda: relative.Abs2rel()),
        ("remove", lambda: rhythm.Remove()),
        ("remove scaling", lambda: rhythm.RemoveScaling()),
        ("explicit", lambda: rhythm.RhythmExplicit()),
        ("implicit", lambda: rhythm.RhythmImplicit()),
        ("implicit per line", lambda: rhythm.RhythmImplicitPerLine()),
        ("remove fractions", lambda: rhythm.RemoveFractionScaling()),
        ("dots", lambda: rhythm.RhythmTransform(duration.Transform(dotcount=dots))),
        ("paste", lambda: rhythm.PasteRhythm(durs)),
    )
    return ops


def select(rng, text):
    n = len(text)
    if rng.random() < .15:      # from inside the first words to the end
        spots = [m.start() + 1 for m in itertools.islice(re.finditer(r"\w[\w',]", text), 5)]
        if spots:
            return rng.choice(spots), n
    a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    return a, b


def run(op, text, sel, lexicon):
    """Run the operation in a fresh document, return (text, changes) or an exception."""
    doc = live(lexicon, text)
    return do(op, doc, sel)


def do(op, doc, sel):
    try:
        e = op()
        if sel:
            quiet(e.edit_cursor, parce.Cursor(doc, *sel))
        else:
            quiet(e.edit_document, doc)
        return doc.text(), e.changes()
    except Exception as e:
        return repr(e), type(e)


def case_operations(rng, mon):
    """Operations of the library and text edits in turn."""
    lexicon = c05.LY[0]
    text = lytext(rng)
    doc = live(lexicon, text)
    hist = [text]
    sigs = []
    last = None
    for _ in range(6):
        t = doc.text()
        if rng.random() < .3:
            a, b, ins = an_edit(rng, t, "ly", [])
            hist.append((a, b, ins))
            quiet(doc.__setitem__, slice(a, b), ins)
        else:
            name, op = last if last and rng.random() < .2 else rng.choice(operations(rng))
            sel = select(rng, t) if rng.random() < .5 else None
            if rng.random() < .02:
                doc[:] = t = ""
                sel = rng.choice([None, (0, 0)])
            hist.append((name, sel))
            want = run(op, t, sel, lexicon)
            tree = doc.get_transform(True)
            pending = tree and list(tree.edits(doc.get_root(True)))   # e.g. a missing bracket
            if not t:
                mon.ev("empty document")
                mon.check(not isinstance(want[1], type), "empty-" + name, "operation raises in an empty document: %s" % want[0])
            got = do(op, doc, sel)
            mon.check(want == got, "operation-" + name, "operation in a live document gives another result than in a fresh one",
                      want=want, got=got, text=t, history=hist)
            mon.ev("same as fresh")
            if isinstance(got[1], type):
                mon.ev("operation raises")
                # the tree may be half modified, that is no live state anymore
                return
            mon.ev("operation")
            if last and name == last[0]:
                mon.ev("repeated operation")
            last = name, op
            u = doc.text()
            if sel and sel[0] != sel[1]:
                mon.ev("operation on selection")
                head, tail, v = t[:sel[0]], t[sel[1]:], u
                if pending:
                    mon.ev("skipped: unfinished text")
                elif name in ("explicit", "implicit per line", "paste") and re.match(r"([\s}]|%[^\n]*\n|%\{.*?%\})*>", tail, re.DOTALL):
                    mon.ev("skipped: only the end of a chord not selected")
                else:
                    mon.check(v.startswith(head.rstrip()) and v.endswith(tail.lstrip()), "selection-" + name,
                              "operation changed text outside the selection", text=t, selection=sel, result=u)
                    mon.ev("outside selection kept", len(head) + len(tail))
            if got[1] == 0:
                mon.check(u == t, "changes-" + name, "text changed, but changes() returns 0", text=t, result=u)
        f = compare(mon, doc, lexicon, hist, "live-operation")
        if f is not None:
            sigs.append(str(sig(f)))
    if len(set(sigs)) > 1:
        mon.nontrivial("operations", tuple(sigs))


class Recorder(edit.Edit):
    """Records the nodes in the range."""
    def edit_range(self, r):
        self.ancestor = r.ancestor()
        self.during = self.document()
        nodes = list(r.nodes())
        self.blocks = [(n, self.find_block(n)) for n in nodes]
        return nodes


def case_entries(rng, mon):
    """All ways to address the same music give the same result."""
    lexicon = c05.LY[0]
    text = lytext(rng)
    name, op = rng.choice(operations(rng))
    results = {}
    def attempt(name, f):
        doc = live(lexicon, text)
        tree = quiet(doc.get_transform, True)
        if tree is None:
            return
        try:
            e = op()
            r = f(e, doc, tree)
            results[name] = doc.text()
        except Exception as ex:
            results[name] = repr(ex)
    n = len(text)
    def node(e, doc, tree):
        e.edit_node(tree)
        tree.edit(doc)
    def node_edit(e, doc, tree):
        e.edit(tree)
        tree.edit(doc)
    def range_(e, doc, tree):
        e.edit_range(Range(tree))
        tree.edit(doc)
    def range_edit(e, doc, tree):
        e.edit(Range(tree))
        tree.edit(doc)
    attempt("document", lambda e, doc, tree: e.edit_document(doc))
    attempt("edit(document)", lambda e, doc, tree: e.edit(doc))
    attempt("cursor", lambda e, doc, tree: e.edit_cursor(parce.Cursor(doc, rng.randrange(n + 1))))
    attempt("edit(cursor)", lambda e, doc, tree: e.edit(parce.Cursor(doc)))
    attempt("select all", lambda e, doc, tree: e.edit_cursor(parce.Cursor(doc, 0, n)))
    attempt("select_all()", lambda e, doc, tree: e.edit_cursor(parce.Cursor(doc).select_all()))
    attempt("select to end", lambda e, doc, tree: e.edit_cursor(parce.Cursor(doc, 0, None)))
    if name != "implicit per line":     # that needs to know the lines in the document
        attempt("node", node)
        attempt("edit(node)", node_edit)
        attempt("range", range_)
        attempt("edit(range)", range_edit)
    for k, v in results.items():
        mon.check(v == results["document"], "entry-" + k, "edit via %s gives another result than edit_document" % k,
                  operation=name, text=text, document=results["document"], other=v)
        mon.ev("entry points")
    if not results:
        return
    # from the cursor, and the range starting at the root
    pos = select(rng, text)[0]
    def from_cursor(e, doc, tree):
        e.range_from_cursor = True
        e.edit_cursor(parce.Cursor(doc, pos))
    def from_root(e, doc, tree):
        e.range_from_root = True
        e.edit_cursor(parce.Cursor(doc, pos, n))
    if pos < n:
        attempt("to end", lambda e, doc, tree: e.edit_cursor(parce.Cursor(doc, pos, n)))
        attempt("from cursor", from_cursor)
        attempt("from root", from_root)
        for k in ("from cursor", "from root"):
            mon.check(results[k] == results["to end"], "entry-" + k, "edit %s gives another result than the selection" % k,
                      operation=name, text=text, position=pos, selection=results["to end"], other=results[k])
            mon.ev("part of the document")
    # readonly: the document is not changed
    doc = live(lexicon, text)
    e = op()
    e.readonly = True
    try:
        e.edit_document(doc)
    except Exception:
        pass
    mon.check(doc.text() == text, "readonly", "readonly operation changed the text", text=text, result=doc.text())
    mon.ev("readonly kept")
    # the number of changes
    doc = live(lexicon, text)
    e = op()
    failed = False
    try:
        e.edit_document(doc)
    except Exception:
        failed = True
    if not failed:
        if doc.text() != text:
            mon.check(e.changes() > 0, "changes", "changes() is 0 while the text was changed", operation=name, text=text, result=doc.text())
            mon.ev("changes counted")
        e.readonly = True
        try:
            e.edit_document(live(lexicon, text))
        except Exception:
            pass
        mon.check(e.changes() == 0, "changes-readonly", "changes() is not 0 after a readonly operation", operation=name, text=text)
    # the visited nodes
    doc = live(lexicon, text)
    tree = quiet(doc.get_transform, True)
    for _ in range(4):
        sel = select(rng, text)
        if sel[0] == sel[1]:
            continue
        rec = Recorder()
        rec.range_from_root = rng.random() < .5
        got = rec.edit_cursor(parce.Cursor(doc, *sel))
        a, b = sel
        # a node with its full text in the selection
        want = [n for n in tree.descendants() if n.pos is not None and a <= n.pos and n.end <= b]
        ids = set(map(id, got))
        missing = [n for n in want if id(n) not in ids]
        mon.check(not missing, "visit-missing", "node in selection is not visited", node=str(missing[:2]), text=text, selection=sel)
        # the nodes the selection ends in are visited as well
        extra = [n for n in got if n.pos is not None and not a <= n.pos < b]
        mon.check(not extra, "visit-extra", "node outside selection is visited", nodes=str(extra[:3]), text=text, selection=sel)
        mon.check(len(ids) == len(got), "visit-twice", "node visited twice", text=text, selection=sel)
        mon.ev("visited nodes", len(got))
        mon.check(not rec.range_from_root or rec.ancestor is tree, "range-from-root", "ancestor of the range is not the root", text=text, selection=sel)
        mon.check(rec.during is doc and rec.document() is None, "document", "wrong document() in or after the operation")
    # without a selection: the full document, or from the cursor
    if tree is not None:
        for pos in (0, n, rng.randrange(n + 1), rng.randrange(n + 1)):
            rec = Recorder()
            got = rec.edit_cursor(parce.Cursor(doc, pos))
            every = list(tree.descendants())
            mon.check(list(map(id, got)) == list(map(id, every)), "visit-all", "not all nodes are visited", text=text, position=pos)
            mon.check(rec.changes() == 0, "changes-none", "changes() is not 0 while nothing was changed", text=text)
            for x, b in rec.blocks:
                if x.pos is None:
                    mon.check(b is None, "block", "a block for a node without position", node=str(x))
                else:
                    mon.check(b is not None and b.pos <= x.pos <= b.end and "\n" not in text[b.pos:x.pos], "block", "wrong block for a node", node=str(x), text=text)
                    mon.ev("block of a node")
            rec.range_from_cursor = True
            got = set(map(id, rec.edit_cursor(parce.Cursor(doc, pos))))
            for x in every:
                if x.pos is not None:
                    mon.check((id(x) in got) is (x.pos >= pos), "visit-from-cursor", "node is %s visited" % ("not" if x.pos >= pos else ""),
                              node=str(x), text=text, position=pos)
            mon.ev("visited from cursor", len(got))
    mon.nontrivial("entries", str(sig(tree)))


SUFFIX = {"ly": (".ly", ".ily", ".lyi", ""), "scm": (".scm",), "htm": (".html", ".htm"), "tex": (".lytex", ".tex")}


def case_load(rng, mon):
    """A file is loaded as a live document, edited, saved and loaded again."""
    kind = rng.choice(("ly", "ly", "scm", "htm", "tex"))
    lexicon, reader = {"ly": c05.LY, "scm": c05.SC, "htm": c05.HT, "tex": c05.TX}[kind]
    text = lytext(rng, .4) if kind == "ly" else ScmGen(rng).document(2)[0] if kind == "scm" else (HtmGen if kind == "htm" else TexGen)(rng).document()[0]
    text = text or " "
    suffix = rng.choice(SUFFIX[kind])
    if suffix == "":
        text = '\\version "2.24.0"\n' + text    # recognized by its contents
    if kind != "scm" and rng.random() < .5:
        text += rng.choice(("% caf\xe9 \u20ac\n", "% \U0001d11e\n")) if kind != "htm" else "<!-- caf\xe9 -->"
    encoding = rng.choice((None, None, "utf-8", "utf-8-sig", "utf-16"))
    top = tempfile.mkdtemp(prefix="vt-c22-")
    try:
        name = os.path.join(top, "file" + suffix)
        with open(name, "w", encoding=encoding or "utf-8", newline="") as f:
            f.write(text)
        # (parce may prefer its own XHtml for HTML files)
        guess = kind != "htm" and suffix and rng.random() < .6 or suffix == "" and kind == "ly"
        if guess:
            doc = quiet(quickly.load, name, encoding=encoding)
        else:
            doc = quiet(quickly.load, name, rng.choice((lexicon, {"ly": "lilypond", "scm": "scheme", "htm": "html", "tex": "latex"}[kind])), encoding)
        info = dict(text=text, suffix=suffix, encoding=encoding)
        mon.check(doc.root_lexicon() is lexicon, "load-lexicon", "loaded as %r" % doc.root_lexicon(), **info)
        mon.check(doc.text() == text, "load-text", "loaded text differs", got=doc.text(), **info)
        mon.check(doc.url == name, "load-url", "url is %r" % doc.url, **info)
        tree = quiet(doc.get_transform, True)
        want = fresh_tree(lexicon, text)[1]
        mon.check(tree is not None and not tree_diff(tree, want), "load-tree", "the tree is not that of the text", **info)
        mon.ev("loaded " + kind)
        if kind == "ly":
            e = transpose.Transpose(transpose.Transposer(Pitch(0, 0, 0), Pitch(0, rng.randrange(7), 0)))
            try:
                quiet(e.edit, doc)
            except Exception:
                pass
        else:
            quiet(doc.__setitem__, slice(0, 0), " ")
        mon.check(doc.modified or doc.text() == text, "load-modified", "not modified", **info)
        new = doc.text()
        doc.save()
        with open(name, encoding=encoding or "utf-8", newline="") as f:
            mon.check(f.read() == new, "saved", "other text was saved", **info)
        again = quiet(quickly.load, name, lexicon, encoding)
        mon.check(not tree_diff(quiet(again.get_transform, True), fresh_tree(lexicon, new)[1]), "load-tree", "the tree is not that of the saved text", **info)
        mon.nontrivial(kind, str(sig(want)))
    finally:
        shutil.rmtree(top)
    try:
        quickly.load(name)
    except OSError:
        mon.ev("no file")
    else:
        mon.fail("load-missing", "loading a file that is not there gives no OSError")


STREAMS = {
    "load": Stream(case_load, 200, 6000),
    "typing": Stream(case_typing, 600, 20000),
    "other": Stream(case_other, 300, 10000),
    "operations": Stream(case_operations, 300, 10000),
    "entries": Stream(case_entries, 200, 6000),
}
