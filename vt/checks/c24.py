r"""C24: the whitespace between the elements of written text."""
import contextlib
import io

import parce
from parce.transform import Transformer

from vt.core import Stream
from vt.lygen import LyGen
from vt.docgen import HtmGen, TexGen
from vt.scmgen import ScmGen
from vt.treegen import TreeGen
from quickly.dom import base, element, htm, lily, read, scm, tex, util

PROPERTY = "C24"
RULE = ("Trees built by hand (with layout elements for new lines, blank lines, lines and columns added) and trees read from LilyPond, Scheme, "
        "HTML and LaTeX text get random whitespace set, changed, reset to the default and deleted. An own model walks over the tree and "
        "collects, for every two texts that are written after each other, all the whitespace that is asked for between them; written text must "
        "have the most important of it (newlines before spaces, more before less), and indented text the same number of newlines. "
        "Non-trivial: at least five gaps and three attributes set; distinct by written text.")
ASSUMPTIONS = ["whitespace asked for consists of newlines or spaces, so there always is one that is most important",
               "elements that have no text, no children and no whitespace of their own are not judged"]
NEED = ("gap", "gap newline", "gap blank line", "gap empty", "attribute", "deleted", "reset", "default again", "layout Newline", "layout BlankLine", "layout Line",
        "layout Column", "indented gap", "with origin", "constructor", "comment", "lilypond", "scheme", "html", "latex", "built", "combine")

NAMES = ("before", "after_head", "between", "before_tail", "after")
VALUES = ("", " ", "  ", "\n", "\n\n", "\n\n\n")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def important(spaces):
    return max(spaces, key=lambda s: (s.count("\n"), s.count(" ")))


class Spaces:
    """The whitespace asked for by the elements of a tree."""
    def __init__(self):
        self.set = {}       # id(node) -> {name: value}
        self.keep = []

    def get(self, node, name):
        try:
            return self.set[id(node)][name]
        except KeyError:
            return getattr(type(node), "space_" + name)

    def put(self, node, name, value):
        self.keep.append(node)
        self.set.setdefault(id(node), {})[name] = value

    def drop(self, node, name):
        self.set.get(id(node), {}).pop(name, None)

    def walk(self, n):
        """Yield (text, None) for a text and (None, whitespace) for a wish."""
        kids = list(list.__iter__(n))
        has_head = isinstance(n, element.HeadElement)
        tail = n.write_tail() if isinstance(n, element.BlockElement) else ""
        yield None, self.get(n, "before")
        if has_head:
            yield n.write_head() or "", None
            if kids or tail:
                yield None, self.get(n, "after_head")
        for i, c in enumerate(kids):
            if i:
                yield None, self.between(n, kids[i-1])
            yield from self.walk(c)
        if tail:
            yield None, self.get(n, "before_tail")
            yield tail, None
        yield None, self.get(n, "after")

    def between(self, n, child):
        if isinstance(n, base.Document) and not isinstance(n, tex.Document) and isinstance(child, (base.SinglelineComment, base.Newline)):
            return "\n"
        return self.get(n, "between")

    def layout(self, tree):
        """Return [text, gap, text, gap, text...]."""
        result, gap = [], []
        for text, space in self.walk(tree):
            if space is not None:
                gap.append(space)
            elif text:
                if result:
                    result.append(important(gap or [""]))
                result.append(text)
                gap = []
        return result


def judged(tree):
    """False if there are elements without any text that are not meant for layout."""
    def visit(n):
        texts = [visit(c) for c in list.__iter__(n)]
        own = isinstance(n, element.HeadElement) and n.write_head() or isinstance(n, element.BlockElement) and n.write_tail()
        if not own and not any(t is True for t in texts):
            if not isinstance(n, (base.Newline, base.BlankLine)) or len(texts):
                return None
        if None in texts:
            return None
        return bool(own) or any(texts)
    return visit(tree) is not None


LAYOUT = (base.Newline, base.BlankLine, base.Line, base.Column)


def add_layout(rng, mon, tree, spaces):
    """Insert layout elements in documents, blocks and lists."""
    places = [n for n in [tree, *tree.descendants()] if len(n) and isinstance(n, (base.Document, lily.MusicList, lily.Header, lily.Layout, lily.SimultaneousMusicList,
              lily.Score, scm.List, lily.MarkupList))]
    for i in range(rng.choice((1, 1, 2, 3))):
        if not places:
            break
        n = rng.choice(places)
        cls = rng.choice(LAYOUT)
        if cls in (base.Newline, base.BlankLine):
            n.insert(rng.randint(0, len(n)), cls())
        else:
            a = rng.randrange(len(n))
            b = rng.randint(a + 1, len(n))
            nodes = n[a:b]
            del n[a:b]
            n.insert(a, cls(*nodes))
        mon.ev("layout " + cls.__name__)


def wish(rng, mon, tree, spaces):
    nodes = [n for n in [tree, *tree.descendants()] if not isinstance(n, (base.Newline, base.BlankLine))]
    n = rng.choice(nodes)
    name = rng.choice(NAMES)
    k = rng.random()
    default = getattr(type(n), "space_" + name)
    if k < .65:
        v = rng.choice(VALUES)
        setattr(n, "space_" + name, v)
        spaces.put(n, name, v)
        mon.ev("attribute")
    elif k < .8:
        # also when it was never set
        if rng.random() < .8 and spaces.set:
            n = next((x for x in nodes if spaces.set.get(id(x))), n)
            name = rng.choice(list(spaces.set.get(id(n), ())) or NAMES)
        delattr(n, "space_" + name)
        spaces.drop(n, name)
        mon.ev("deleted")
    else:
        setattr(n, "space_" + name, default)
        spaces.drop(n, name)
        mon.ev("reset")
    mon.check(all(getattr(n, "space_" + x) == spaces.get(n, x) for x in NAMES), "attribute", "a whitespace attribute has another value",
              node=repr(n), got={x: getattr(n, "space_" + x) for x in NAMES}, expected={x: spaces.get(n, x) for x in NAMES})


def gen(rng, mon):
    k = rng.randrange(8)
    origin = False
    if k < 3:
        mon.ev("built")
        return TreeGen(rng).document(rng.choice((1, 2)))[1], None
    if k < 6:
        text = LyGen(rng, comments=rng.choice([0, .1]), size=rng.choice([.4, .8])).document(rng.randint(1, 2), rng.randint(1, 3))
        reader, name = read.lily_document, "lilypond"
    elif k == 6:
        text = ScmGen(rng).document(rng.randint(1, 3))[0]
        reader, name = read.scm_document, "scheme"
    elif rng.random() < .5:
        text = HtmGen(rng).document()[0]
        reader, name = read.htm_document, "html"
    else:
        text = TexGen(rng).document()[0]
        reader, name = read.tex_document, "latex"
    mon.ev(name)
    origin = name in ("html", "latex") or rng.random() < .3
    d = quiet(reader, text, origin)
    if name in ("html", "latex"):
        util.replace_unknown(d, text)
    if origin:
        mon.ev("with origin")
    return d, text


def check_write(mon, tree, spaces, info):
    parts = spaces.layout(tree)
    got = tree.write()
    want = "".join(parts)
    if got != want:
        for i in range(0, len(want)):
            if got[i:i+1] != want[i:i+1]:
                break
        mon.fail("write", "written whitespace differs: %r instead of %r" % (got[max(0, i-20):i+15], want[max(0, i-20):i+15]), got=got, expected=want, **info)
    for gap in parts[1::2]:
        mon.ev("gap")
        mon.ev("gap empty" if not gap else "gap blank line" if gap.count("\n") > 1 else "gap newline" if gap == "\n" else "gap space")
    return parts


def check_indented(rng, mon, tree, parts, info):
    out = tree.write_indented(indent_width=rng.choice((0, 2, 4)))
    pos = 0
    for i, text in enumerate(parts[::2]):
        j = pos
        while j < len(out) and out[j].isspace() and not out.startswith(text, j):
            j += 1
        mon.check(out.startswith(text, j), "indented", "indented text does not have %r" % text, out=out, at=pos, **info)
        if i:
            n, want = out[pos:j].count("\n"), parts[2*i-1].count("\n")
            mon.check(n == want, "indented-newlines", "there are %d newlines instead of %d before %r in indented text" % (n, want, text), out=out, **info)
            mon.check(n or len(out[pos:j]) == len(parts[2*i-1]), "indented-space", "there are %d spaces instead of %d before %r in indented text" % (j - pos, len(parts[2*i-1]), text), out=out, **info)
            mon.ev("indented gap")
        pos = j + len(text)
    mon.check(not out[pos:].strip(), "indented-rest", "indented text has more text: %r" % out[pos:], out=out, **info)


def case_tree(rng, mon):
    tree, text = gen(rng, mon)
    spaces = Spaces()
    for n in [tree, *tree.descendants()]:
        for name in NAMES:
            # whitespace that was set by the transform
            v = getattr(n, "space_" + name)
            if v != getattr(type(n), "space_" + name):
                spaces.put(n, name, v)
                mon.ev("set by the transform")
    initial = {k: dict(v) for k, v in spaces.set.items()}
    if rng.random() < .5:
        add_layout(rng, mon, tree, spaces)
    if not judged(tree):
        return
    if any(isinstance(n, base.SinglelineComment) for n in tree.descendants()):
        mon.ev("comment")
    info = dict(text=text)
    before = check_write(mon, tree, spaces, info)
    for i in range(rng.choice((0, 1, 3, 6, 12))):
        wish(rng, mon, tree, spaces)
    info["spaces"] = [(repr(n), spaces.set[id(n)]) for n in [tree, *tree.descendants()] if spaces.set.get(id(n))]
    parts = check_write(mon, tree, spaces, info)
    if not any(isinstance(n, tex.Document) or isinstance(n, htm.Document) for n in [tree]):
        check_indented(rng, mon, tree, parts, info)
    if len(parts) > 10 and len(info["spaces"]) >= 3:
        mon.nontrivial("".join(parts))
    mon.sample(info)
    # all back to the default
    for n in [tree, *tree.descendants()]:
        first = initial.get(id(n), {})
        for name in {*spaces.set.get(id(n), ()), *first}:
            if name in first:
                setattr(n, "space_" + name, first[name])
            elif rng.random() < .5:
                delattr(n, "space_" + name)
            else:
                setattr(n, "space_" + name, getattr(type(n), "space_" + name))
    mon.check(tree.write() == "".join(before), "default", "text differs when all whitespace has its default value again", got=tree.write(), expected="".join(before), **info)
    mon.ev("default again")


def case_construct(rng, mon):
    """Whitespace given to the constructor; combine_text() and collapse_whitespace()."""
    kw = {"space_" + n: rng.choice(VALUES) for n in rng.sample(NAMES, rng.randint(0, 5))}
    cls = rng.choice((lily.MusicList, lily.Header, scm.List, lily.SimultaneousMusicList, base.Line, lily.Document, lily.Layout))
    kids = lambda: [scm.Number(i) if cls is scm.List else lily.Note("c") for i in range(rng.randint(1, 3))]
    n = cls(*kids(), **kw)
    outer = lily.Document(lily.Version(lily.String("2.24")), n, lily.Note("g"))
    spaces = Spaces()
    for k, v in kw.items():
        spaces.put(n, k[6:], v)
    mon.check(all(getattr(n, "space_" + x) == spaces.get(n, x) for x in NAMES), "constructor", "a whitespace argument was not set", kw=kw, node=repr(n))
    check_write(mon, outer, spaces, dict(kw=kw, node=repr(n)))
    mon.ev("constructor")
    frags = [(rng.choice(VALUES), rng.choice(("a", "b", "", "c d")), rng.choice(VALUES)) for i in range(rng.randint(0, 5))]
    texts, gaps, gap = [], [], [""]
    for b, t, a in frags:
        gap.append(b)
        if t:
            gaps.append(important(gap))
            texts.append(t)
            gap = [""]
        gap.append(a)
    gaps.append(important(gap))
    want = (gaps[0] if texts else "", "".join(t + (gaps[i+1] if i + 1 < len(texts) else "") for i, t in enumerate(texts)), gaps[-1])
    got = util.combine_text(frags)
    mon.check(got == want, "combine", "combine_text() gives another text", fragments=frags, got=got, expected=want)
    ws = [rng.choice(VALUES) for i in range(rng.randint(0, 4))]
    mon.check(util.collapse_whitespace(ws) == important(ws or [""]), "collapse", "collapse_whitespace() gives other whitespace", whitespace=ws)
    mon.ev("combine")


STREAMS = {"tree": Stream(case_tree, 4000, 150000), "construct": Stream(case_construct, 3000, 60000)}
