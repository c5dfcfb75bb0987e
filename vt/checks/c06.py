r"""C06: indented writing."""
import contextlib
import io
import re

from vt.core import Stream
from vt.lygen import LyGen
from vt.docgen import HtmGen, TexGen
from vt.scmgen import ScmGen
from vt import lytext
from vt.util import tree_diff, sig
from quickly.dom import read, lily, base, element, scm, htm, tex, util, indent

PROPERTY = "C06"
RULE = ("Generated LilyPond, Scheme, HTML and LaTeX trees, with line breaks put at random places (spacing attributes, "
        "add_newlines() of the original text), written indented with random settings. Monitors: same characters outside "
        "whitespace, strings and comments identical, reads back as the same tree, indenting the result again gives the "
        "same text, and every line has the indent given by an independent model of open blocks (width per level, "
        "alignment, start indent). Non-trivial: at least three lines and one nested level; distinct by text and settings.")
ASSUMPTIONS = ["alignment is modelled only for the element types that document it (music lists, chords, markup lists, Scheme lists)",
               "HTML and LaTeX text: whitespace in text content may be added at the end (trailing newline); embedded "
               "LilyPond must read back as the same music"]
NEED = ("conserved", "reread", "fixed point", "line indent", "nested line", "aligned line", "dedented line", "newlines kept", "embedded", "embed reread", "broken", "indenter used again", "block separator")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def nows(text):
    return "".join(text.split())


def norm(tree):
    tree = tree.copy()
    for n in list(tree // lily.DurationScaling):
        if n.head == 1:
            n.parent.remove(n)
    return tree


def settings(rng):
    return {"indent_width": rng.choice([0, 1, 2, 2, 3, 4, 8]), "start_indent": rng.choice([0, 0, 1, 4, 7]),
            "max_align_indent": rng.choice([-1, -1, 0, 4, 16, 16, 24, 60])}


# -- an independent model -----------------------------------------------------------

class Level:
    """An open block."""
    def __init__(self, node):
        self.node = node
        self.indent = None
        self.children = {}      # index -> column in the text of the line


def has_levels(node):
    """True for nodes with a delimited block, whose contents are indented."""
    return isinstance(node, element.BlockElement) and not isinstance(node, (htm.Tag, htm.String))


ALIGN0 = (lily.MusicList, lily.ChordBody, lily.MarkupList)


def align_indices(node, keyword):
    if isinstance(node, ALIGN0):
        return (0,)
    if isinstance(node, scm.List):
        if len(node) and isinstance(node[0], scm.Identifier):
            return () if keyword(node[0].head) else (1, 0)
        return (0,)
    return ()


def tokens(node):
    """Yield (text, kind, node); kind "head" or "tail"; empty texts too."""
    yield node.write_head() or "", "head", node
    for n in list.__iter__(node):
        yield from tokens(n)
    yield node.write_tail() or "", "tail", node


def check_lines(mon, tree, out, opts, keyword):
    """Check the indent of every line of out."""
    width, start, maxalign = opts["indent_width"], opts["start_indent"], opts["max_align_indent"]
    pos = 0
    stack = []          # open levels
    line_start = None   # offset of the first character of the text on the current line
    line_indent = None
    leading = False     # True when only tails were seen on this line
    multi = False       # True if the current line contains a multiline text
    unsure = False
    pending = []        # levels/children whose position is not yet known
    nlines = nested = aligned = dedented = 0
    ws = re.compile(r"\s*")
    first = True

    def new_line():
        """Give the levels opened at the previous line their indent."""
        nonlocal aligned, unsure
        cur = start
        for l in stack:
            if l.indent is not None:
                cur = l.indent
        new = cur
        for l in stack:
            if l.indent is None:
                new += width
                for i in align_indices(l.node, keyword):
                    if i in l.children:
                        col = l.children[i]
                        if col is None:
                            unsure = True
                        elif col <= maxalign:
                            new = cur + col
                            aligned += 1
                        break
                l.indent = new

    def closed_line():
        """Check the line that consists of tails."""
        if not unsure:
            want = start
            for l in stack:
                if l.indent is not None:
                    want = l.indent
            mon.check(line["n"] == want, "dedent", "line is indented by %d instead of %d: %r" % (line["n"], want, out[line["at"]:line["at"]+40].split("\n")[0]),
                      out=out, opts=opts)
            mon.ev("line indent")

    for text, kind, node in tokens(tree):
        if kind == "head":
            p = node.parent
            if stack and p is not None and stack[-1].node is p:
                i = next(k for k, c in enumerate(list.__iter__(p)) if c is node)
                pending.append((stack[-1], i))
        if text:
            m = ws.match(out, pos)
            gap = m.group()
            if not out.startswith(text, m.end()):
                mon.fail("model-mismatch", "text is not where expected: %r" % text, out=out, at=m.end())
            at = m.end()
            if first or "\n" in gap:
                n = len(gap) - gap.rfind("\n") - 1 if "\n" in gap else at
                if leading:
                    closed_line()
                if not first:
                    new_line()
                    multi = False
                line_start = at
                first = False
                if kind == "tail" and has_levels(node):
                    leading = True
                    level = stack[:-1]
                else:
                    leading = False
                    level = stack
                want = start
                for l in level:
                    want = l.indent
                nlines += 1
                nested += bool(level)
                dedented += leading
                if kind == "head" and isinstance(node, base.Comment) and len(text) >= 3 and len(set(text[:3])) == 1:
                    want = 0
                line = dict(at=at, n=n)
                # several tails in a row dedent further, check after the last
                if not leading:
                    if not unsure:
                        mon.check(n == want, "indent", "line is indented by %d instead of %d: %r" % (n, want, out[at:at+40].split("\n")[0]),
                                  out=out, opts=opts)
                        mon.ev("line indent")
            elif leading and kind == "tail" and has_levels(node):
                pass
            elif leading:
                leading = False
                closed_line()
            for l, i in pending:
                if l.indent is None and l in stack:
                    l.children[i] = None if multi else at - line_start
            pending.clear()
            pos = at + len(text)
            if "\n" in text:
                multi = True
        if kind == "head" and has_levels(node):
            stack.append(Level(node))
        elif kind == "tail" and has_levels(node):
            pending[:] = [p for p in pending if p[0] is not stack[-1]]
            stack.pop()
    if leading:
        closed_line()
    if nested:
        mon.ev("nested line", nested)
    if aligned:
        mon.ev("aligned line", aligned)
    if dedented:
        mon.ev("dedented line", dedented)
    return nlines, nested


def check_indented(rng, mon, tree, reader, skeleton, opts, keyword, key=""):
    """Check one indented output of the tree; returns the output."""
    out = tree.write_indented(**opts)
    plain = tree.write()
    a, b = skeleton(plain), skeleton(out)
    mon.check(a == b, key or "conserved", "indented text differs in more than whitespace: " + diff(a, b), plain=plain, out=out, opts=opts)
    mon.ev("conserved")
    mon.check(out == "" or out.endswith("\n"), "end-newline", "output does not end with a newline", out=out)
    d1, d2 = quiet(reader, plain), quiet(reader, out)
    x = tree_diff(norm(d1), norm(d2))
    mon.check(x is None, key or "reread", "indented text reads as another tree: %s" % x, plain=plain, out=out, opts=opts)
    mon.ev("reread")
    n = nested = 0
    if out.strip():
        n, nested = check_lines(mon, tree, out, opts, keyword)
    if n >= 3 and nested:
        mon.nontrivial(out, sorted(opts.items()))
    return out


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "%d: %r vs %r" % (i, a[max(0, i-10):i+30], b[max(0, i-10):i+30])
    return "lengths %d %d" % (len(a), len(b))


def skeleton_ly(text):
    return lytext.skeleton(text)


def fixed_point(mon, out, reader, opts, blank):
    d = quiet(reader, out, True)
    if blank is not None:
        util.add_newlines(d, out, max_blank_lines=blank)
    out2 = d.write_indented(**opts)
    mon.check(out2 == out, "fixed-point", "indenting again gives another text", first=out, second=out2, opts=opts, blank=blank)
    mon.ev("fixed point")


def random_newlines(rng, tree):
    nodes = [n for n in tree.descendants()]
    if rng.random() < .3:
        # whitespace before the first text is not written
        n = tree
        while len(n) and not n.write_head() and rng.random() < .9:
            n = n[0]
        n.space_before = rng.choice([" ", "\n", "\n\n"])
    for i in range(rng.choice([0, 1, 2, 4, 8])):
        if nodes:
            n = rng.choice(nodes)
            # not where a line break could mean something else
            if isinstance(n, (lily.MusicList, lily.Chord, lily.Note, lily.Rest, lily.Assignment, lily.MarkupWord, scm.List, scm.Identifier,
                              scm.Number, scm.String, lily.Header, lily.Layout)):
                n.space_before = rng.choice(["\n", "\n\n", "\n"])
            elif type(n) in (lily.MusicList, scm.List, lily.SimultaneousMusicList) and len(n):
                n.space_before_tail = "\n"
    for n in nodes:
        if type(n) in (lily.MusicList, scm.List, lily.SimultaneousMusicList, lily.MarkupList) and len(n) and rng.random() < .25:
            n.space_before_tail = "\n"
            if rng.random() < .5:
                n.space_after_head = "\n"
            if rng.random() < .2:
                n.space_between = "\n"


def gap_counts(tree, out):
    """The number of newlines before each text, None when the text is not found."""
    pos = 0
    ws = re.compile(r"\s*")
    counts = []
    for p in tree.points():
        t = p.text()
        if t:
            m = ws.match(out, pos)
            if not out.startswith(t, m.end()):
                return counts
            pos = m.end() + len(t)
            counts.append(m.group().count("\n"))
    return counts


def gap_newlines(mon, tree, text, out, blank, default):
    """Newlines in the original text between two elements are kept (max blank).

    The default is the list of newlines that are written without add_newlines().

    """
    pos = 0
    default = iter(default)
    prev = None
    ws = re.compile(r"\s*")
    for p in tree.points():
        t = p.text()
        if not t:
            prev = None
            continue
        m = ws.match(out, pos)
        if not out.startswith(t, m.end()):
            return
        pos = m.end() + len(t)
        n = m.group().count("\n")
        base = next(default, None)
        if p.pos is None:
            prev = None
            continue
        if prev is not None:
            want = min(text[prev.end:p.pos].count("\n"), blank)
            mon.check(n >= want, "newlines-lost", "there are %d newlines before %r instead of %d" % (n, t, want), text=text, out=out)
            if base is not None:
                mon.check(n <= max(want, base), "newlines-added", "there are %d newlines before %r instead of %d" % (n, t, want), text=text, out=out, blank=blank)
            mon.ev("newlines kept", want)
        prev = p


from parce.lang.scheme import scheme_is_indenting_keyword as parce_keyword


def case_ly(rng, mon):
    g = LyGen(rng, comments=rng.choice([0, .05, .15]), size=rng.choice([.5, 1, 1]))
    text = g.document(rng.randint(1, 3), rng.randint(1, 4))
    mode = rng.randrange(3)
    opts = settings(rng)
    if mode == 0:
        d = quiet(read.lily_document, text)
        out = check_indented(rng, mon, d, read.lily_document, skeleton_ly, opts, parce_keyword)
        fixed_point(mon, out, read.lily_document, opts, None)
    elif mode == 1:
        d = quiet(read.lily_document, text)
        random_newlines(rng, d)
        out = check_indented(rng, mon, d, read.lily_document, skeleton_ly, opts, parce_keyword)
        fixed_point(mon, out, read.lily_document, opts, 10)
    else:
        blank = rng.choice([1, 2, 3, 10])
        d = quiet(read.lily_document, text, True)
        default = gap_counts(d, d.write())
        if rng.random() < .3:
            # another separator of the lines
            sep = rng.choice("\u2029\0\r")
            d2 = quiet(read.lily_document, text, True)
            util.add_newlines(d, text, max_blank_lines=blank)
            util.add_newlines(d2, text.replace("\n", sep), sep, blank)
            for a, b in zip(d.descendants(), d2.descendants()):
                mon.check((a.space_before, a.space_before_tail) == (b.space_before, b.space_before_tail), "separator",
                    "another block separator gives other newlines", text=text, node=repr(a))
            mon.ev("block separator")
        else:
            util.add_newlines(d, text, max_blank_lines=blank)
        out = check_indented(rng, mon, d, read.lily_document, skeleton_ly, opts, parce_keyword)
        gap_newlines(mon, d, text, out, blank, default)
        fixed_point(mon, out, read.lily_document, opts, 10)
    mon.sample({"text": text, "opts": opts, "out": out})


def scm_skeleton(text):
    return nows(text)


def case_scm(rng, mon):
    text, values = ScmGen(rng).document(rng.randint(1, 4))
    opts = settings(rng)
    if rng.random() < .5:
        d = quiet(read.scm_document, text)
        random_newlines(rng, d)
        out = check_indented(rng, mon, d, read.scm_document, scm_skeleton, opts, parce_keyword)
    else:
        blank = rng.choice([1, 2, 10])
        d = quiet(read.scm_document, text, True)
        default = gap_counts(d, d.write())
        util.add_newlines(d, text, max_blank_lines=blank)
        out = check_indented(rng, mon, d, read.scm_document, scm_skeleton, opts, parce_keyword)
        gap_newlines(mon, d, text, out, blank, default)
    fixed_point(mon, out, read.scm_document, opts, 10)


def case_embed(rng, mon):
    """HTML and LaTeX: no text may be lost, the music stays the same."""
    opts = settings(rng)
    if rng.random() < .5:
        text, spec = HtmGen(rng).document()
        reader = read.htm_document
    else:
        text, spec = TexGen(rng).document()
        reader = read.tex_document
    d = quiet(reader, text, True)
    util.replace_unknown(d, text)
    if rng.random() < .5:
        util.add_newlines(d, text)
    out = d.write_indented(**opts)
    plain = d.write()
    a, b = nows(plain), nows(out)
    mon.check(a == b, "conserved", "indented text differs in more than whitespace: " + diff(a, b), plain=plain, out=out, opts=opts)
    mon.ev("conserved")
    if plain and not plain[0].isspace():
        # in HTML and LaTeX the whitespace is text, which also remains
        n = opts.get("start_indent", 0)
        mon.check(not out[:n].strip(), "start-indent", "no start indent", plain=plain, out=out, opts=opts)
        x, y = norm(quiet(reader, plain.strip("\n"))), norm(quiet(reader, out[n:].strip("\n")))
        if n:
            # the start indent of lines that start with a tag is in the text before it
            for t in (x, y):
                for c in list(t // (htm.Text, tex.Text)):
                    c.head = re.sub(r"\n *", "\n", c.head)
        z = tree_diff(x, y)
        mon.check(z is None, "embed-reread", "indented text reads as another document: %s" % z, plain=plain, out=out, opts=opts)
        mon.ev("embed reread")
    d1, d2 = quiet(reader, plain), quiet(reader, out)
    m1, m2 = list(d1 // lily.Document), list(d2 // lily.Document)
    mon.check(len(m1) == len(m2), "embedded", "indented text has %d instead of %d music fragments" % (len(m2), len(m1)), plain=plain, out=out)
    for x, y in zip(m1, m2):
        z = tree_diff(norm(x), norm(y))
        mon.check(z is None, "embedded", "embedded music differs: %s" % z, plain=plain, out=out)
        mon.ev("embedded")


def case_broken(rng, mon):
    """Unfinished and malformed text: nothing is lost either."""
    from vt.lygen import mutate
    g = LyGen(rng, comments=.05)
    text = mutate(rng, g.document(rng.randint(1, 2), rng.randint(1, 3)))
    d = quiet(read.lily_document, text, True)
    util.add_newlines(d, text)
    util.replace_unknown(d, text)
    opts = settings(rng)
    out = d.write_indented(**opts)
    a, b = nows(d.write()), nows(out)
    mon.check(a == b, "conserved", "indented text differs in more than whitespace: " + diff(a, b), text=text, out=out, opts=opts)
    mon.ev("broken")


def case_reuse(rng, mon):
    """One Indenter for several trees, with settings that change."""
    opts = settings(rng)
    ind = indent.Indenter(**opts)
    trees = []
    for i in range(rng.randint(2, 5)):
        if trees and rng.random() < .3:
            d = rng.choice(trees)
        else:
            g = LyGen(rng, size=.5)
            d = quiet(read.lily_document, g.document(1, 2)) if rng.random() < .7 else quiet(read.scm_document, ScmGen(rng).document(1)[0])
            random_newlines(rng, d)
            if rng.random() < .3:
                d = rng.choice([d, *d.descendants()])
            trees.append(d)
        if rng.random() < .4:
            k, v = rng.choice(list(settings(rng).items()))
            opts[k] = v
            setattr(ind, k, v)
        mon.check(all(getattr(ind, k) == v for k, v in opts.items()), "settings", "a setting has another value", opts=opts)
        before = d.write()
        got, want = ind.write(d), d.write_indented(**opts)
        mon.check(got == want, "reuse", "an Indenter that was used before writes another text", got=got, want=want, opts=opts)
        mon.check(d.write() == before, "modified", "indented writing modifies the tree", before=before, after=d.write())
        mon.ev("indenter used again")
    mon.nontrivial(want, sorted(opts.items()))


STREAMS = {
    "reuse": Stream(case_reuse, 500, 15000),
    "broken": Stream(case_broken, 800, 30000),
    "lilypond": Stream(case_ly, 3000, 150000),
    "scheme": Stream(case_scm, 1500, 60000),
    "embedded": Stream(case_embed, 800, 30000),
}
