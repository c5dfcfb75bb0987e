r"""C05: writing back edits."""
import contextlib
import io
import re
from fractions import Fraction

import parce
from parce.transform import Transformer

from vt.core import Stream
from vt.lygen import LyGen, comment_texts
from vt.docgen import HtmGen, TexGen
from vt.scmgen import ScmGen
from vt.util import tree_diff, sig
from quickly.dom import read, lily, base, element, scm, htm, tex, util
from quickly.lang import lilypond, html, latex, scheme

PROPERTY = "C05"
RULE = ("Generated LilyPond, Scheme, HTML and LaTeX documents in a parce document; 0 to 6 random modifications of the tree "
        "(head values, removing, inserting, replacing, wrapping, moving elements). Monitors over the list of edits and "
        "the resulting text: edits are in order and disjoint; the text of every untouched element and all text between "
        "untouched neighbours is in no edit; the new text is, without whitespace, the text of the modified tree; when "
        "the modified tree itself survives writing and reading, the edited document reads as exactly that tree. "
        "Non-trivial: at least one modification written; distinct by tree shape after the modifications.")
ASSUMPTIONS = ["when elements are moved, any choice of which elements stay in place is accepted, as long as a single moved "
               "element leaves all others alone"]
NEED = ("no edits", "untouched kept", "gap kept", "conserved", "reread", "op head", "op remove", "op insert", "op replace",
        "op move", "op wrap", "op moveout", "comment, no edits", "exact",
        "range", "kept outside range", "deleted in range", "edits of a copy", "op origin",
        "set the same head", "set the same property")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def nows(text):
    return "".join(text.split())


class Doc:
    """A parce document with its tree, and the original points."""
    def __init__(self, lex, text):
        self.text = text
        self.lex = lex
        self.doc = parce.Document(lex, text)
        self.tree = quiet(Transformer().transform_tree, self.doc.get_root(True))
        self.points = self.snapshot()

    def snapshot(self):
        return {key(p): p for p in self.tree.points() if p.pos is not None or p.text()}


def key(p):
    return (id(p.text.__self__), p.text.__name__)


NOTES = "c d e f g a b cis des fis bes".split()


def new_music(rng):
    k = rng.randrange(8)
    if k == 0: return lily.Note(rng.choice(NOTES))
    if k == 1: return lily.Note(rng.choice(NOTES), lily.Duration(rng.choice([1, .5, .25, .125, .75])))
    if k == 2: return lily.Rest(lily.Duration(.25))
    if k == 3: return lily.Chord(lily.ChordBody(lily.Note('c'), lily.Note('e')), lily.Duration(.5))
    if k == 4: return lily.MusicList(lily.Note('d'), lily.Note('e'))
    if k == 5: return lily.Clef(lily.Symbol("bass"))
    if k == 6: return lily.SinglelineComment(" new line")
    return lily.MultilineComment(" new ")


BLOCKS = (lily.Header, lily.Paper, lily.Layout, lily.Score, lily.Book, lily.BookPart)


def containers(tree):
    r = [tree] if type(tree) in (lily.Document, htm.Document, tex.Document, scm.Document) else []
    return r + [n for n in tree.instances_of((lily.MusicList, lily.SimultaneousMusicList, scm.List)) if type(n) in (lily.MusicList, lily.SimultaneousMusicList, scm.List)]


def new_for(rng, c):
    """A new element for the container."""
    t = type(c)
    if t in (scm.List, scm.Document):
        return rng.choice([scm.Number(42), scm.Identifier("newid"), scm.String("new string"), scm.Quote("'", scm.Identifier("q")), scm.SinglelineComment(" new")])
    if t is htm.Document:
        return rng.choice([lambda: htm.Text("new text "), lambda: htm.Element(htm.SingleTag(htm.TagName("br"))), lambda: htm.Comment(" new ")])()
    if t is tex.Document:
        return rng.choice([lambda: tex.Text("new text "), lambda: tex.Comment(" new ")])()
    if t is lily.Document:
        k = rng.randrange(5)
        if k == 0: return lily.Assignment(lily.Identifier(lily.Symbol("newvar")), lily.EqualSign(), lily.MusicList(new_music(rng)))
        if k == 1: return lily.Header(lily.Assignment(lily.Identifier(lily.Symbol("title")), lily.EqualSign(), lily.String("new")))
        if k == 2: return lily.Version(lily.String("2.24.0"))
        if k == 3: return lily.MusicList(new_music(rng), new_music(rng))
        return rng.choice([lily.SinglelineComment(" new line"), lily.MultilineComment(" new ")])
    return new_music(rng)


def op_child(rng, tree, touched):
    """Add or remove a property (child element) of a note, rest or chord."""
    c = [n for n in tree.descendants() if type(n) in (lily.Note, lily.Rest, lily.Chord, lily.Skip, lily.Space)]
    if not c:
        return None
    n = rng.choice(c)
    k = rng.randrange(4)
    if k == 0 and len(n):
        q = rng.choice(list(n))
        if isinstance(q, lily.ChordBody):
            return None
        n.remove(q)
        return q
    if k == 1:
        n.duration = rng.choice([None, 1, .5, .25, .125])
    elif k == 2 and isinstance(n, lily.Note):
        n.octave = rng.choice([-2, -1, 1, 2])
    elif not isinstance(n, lily.Skip):
        n.add(rng.choice([lambda: lily.Articulation('stopped'), lambda: lily.Tie(), lambda: lily.Dynamic('f')])())
    else:
        return None
    # a new value in an existing element counts as touched
    touched.update(id(x) for x in n if isinstance(x, (lily.Duration, lily.Octave)))
    return n


def op_head(rng, tree, touched):
    """Change a head value."""
    c = []
    for n in tree.descendants():
        t = type(n)
        if t in (lily.Note, lily.Duration, lily.Octave, lily.Fingering, lily.Symbol, lily.String, scm.Number,
                 scm.Identifier, scm.String, lily.MultilineComment, lily.SinglelineComment, scm.MultilineComment,
                 htm.Text, htm.TagName, htm.AttrName, tex.Text, lily.Dynamic, lily.Int):
            c.append(n)
    if not c:
        return None
    n = rng.choice(c)
    t = type(n)
    old = n.head
    if t is lily.Note: new = rng.choice(NOTES)
    elif t is lily.Duration: new = rng.choice([1, .5, .25, .125, .75, .375])
    elif t is lily.Octave: new = rng.choice([-2, -1, 1, 2, 3])
    elif t is lily.Fingering: new = rng.choice("12345")
    elif t in (scm.Number, lily.Int): new = rng.randrange(100)
    elif t is lily.Dynamic: new = rng.choice(["p", "ff", "sfz"])
    elif t in (scm.Identifier, lily.Symbol): new = old + rng.choice("abx")
    elif t in (lily.MultilineComment, lily.SinglelineComment, scm.MultilineComment): new = " changed comment"
    elif t in (htm.TagName, htm.AttrName): new = old + "x"
    else: new = old + "x" * rng.randint(1, 3)
    if new == old:
        return None
    n.head = new
    touched.add(id(n))
    return n


def op_origin(rng, tree, touched):
    """Replace an element by another that takes over its place in the text."""
    c = [n for n in tree.descendants() if type(n) in (lily.Note, lily.Rest, lily.Space, lily.String, lily.Symbol, scm.Number, scm.Identifier, scm.String, htm.Text, tex.Text)
         and n.pos is not None]
    if not c:
        return None
    n = rng.choice(c)
    t = type(n)
    if t in (lily.Rest, lily.Space) or t is lily.Note and rng.random() < .5:
        # a note for a rest, or another note
        x = lily.Note(rng.choice(NOTES), *n)
        x.copy_origin_from(n, True)
        touched.add(id(x))
    else:
        # the same, as before
        x = t(n.head, *n)
        if id(n) in touched:
            x.copy_origin_from(n, rng.choice((None, True)))
            touched.add(id(x))
        else:
            x.copy_origin_from(n, rng.choice((None, False)))
    n.replace_with(x)
    return x


def op_remove(rng, tree, touched):
    cs = [c for c in containers(tree) if len(c)]
    if not cs:
        return None
    c = rng.choice(cs)
    i = rng.randrange(len(c))
    n = c[i]
    del c[i]
    return n


def op_insert(rng, tree, touched):
    cs = containers(tree)
    if not cs:
        return None
    c = rng.choice(cs)
    i = rng.randint(0, len(c))
    if len(c) and rng.random() < .3:
        n = rng.choice(list(c)).copy()
        if isinstance(n, base.Unknown) or any(n // base.Unknown):
            return None
    else:
        n = new_for(rng, c)
    c.insert(i, n)
    return n


def op_replace(rng, tree, touched):
    cs = [c for c in containers(tree) if len(c)]
    if not cs:
        return None
    c = rng.choice(cs)
    i = rng.randrange(len(c))
    n = new_for(rng, c)
    if rng.random() < .5:
        c[i] = n
    else:
        c[i].replace_with(n)
    return n


def op_wrap(rng, tree, touched):
    """Put a child (or a slice of children) in a new list."""
    cs = [c for c in containers(tree) if len(c) and c is not tree]
    if not cs:
        return None
    c = rng.choice(cs)
    i = rng.randrange(len(c))
    j = rng.randint(i + 1, len(c))
    nodes = list(c[i:j])
    if type(c) is scm.List:
        w = scm.List()
    else:
        w = rng.choice([lily.MusicList, lily.SimultaneousMusicList])()
    del c[i:j]
    w.extend(nodes)
    outer = w
    if type(c) is not scm.List and rng.random() < .4:
        outer = rng.choice([lambda: lily.Relative(w), lambda: lily.Grace('grace', w) if False else lily.Absolute(w)])()
    c.insert(i, outer)
    return outer


def unwrap(rng, tree, touched):
    cs = [c for c in containers(tree) if len(c) and type(c.parent) is type(c)]
    if not cs:
        return None
    c = rng.choice(cs)
    p = c.parent
    i = p.index(c)
    nodes = list(c)
    p[i:i+1] = nodes
    return p


def op_move(rng, tree, touched, moved=None):
    cs = [c for c in containers(tree) if len(c) > 1]
    if not cs:
        return None
    c = rng.choice(cs)
    i = rng.randrange(len(c))
    n = c[i]
    del c[i]
    j = rng.choice([x for x in range(len(c) + 1) if x != i])
    c.insert(j, n)
    return n


def op_moveout(rng, tree, touched):
    cs = containers(tree)
    a = [c for c in cs if len(c)]
    if not a:
        return None
    c = rng.choice(a)
    n = rng.choice(list(c))
    inside = set(map(id, n.descendants())) | {id(n)}
    b = [x for x in cs if x is not c and type(x) is type(c) and id(x) not in inside]
    if type(c) is not scm.List:
        b = [x for x in cs if x is not c and type(x) is not scm.List and x is not tree and id(x) not in inside]
    if c is tree:
        b = []
    if not b:
        return None
    c.remove(n)
    x = rng.choice(b)
    x.insert(rng.randint(0, len(x)), n)
    return n


OPS = {"head": op_head, "remove": op_remove, "insert": op_insert, "replace": op_replace, "wrap": op_wrap, "unwrap": unwrap,
    "child": op_child, "origin": op_origin}
MOVES = {"move": op_move, "moveout": op_moveout}


def check_edits(mon, d, edits, touched, moved=None, keyname=""):
    """Check the edits for document d.

    ``touched`` are the ids of elements with a changed head; ``moved`` the ids
    of elements moved (or True when any element may have been moved).

    """
    text = d.text
    pos = 0
    for p, e, t in edits:
        mon.check(pos <= p <= e <= len(text), keyname or "edit-order", "edits overlap or are not in order", edits=edits, text=text)
        pos = e
    new = [p for p in d.tree.points() if p.pos is not None or p.text()]
    # expected contents
    parts = []
    for p in new:
        existing = p.pos is not None and not p.modified
        if existing and moved is True and any(x < p.end and y > p.pos for x, y, t in edits):
            existing = False    # was moved
        parts.append(text[p.pos:p.end] if existing else p.text() or "")
        if p.pos is not None:
            changed = id(p.text.__self__) in touched and p.text.__name__ == "write_head"
            mon.check(bool(p.modified) <= changed, keyname or "modified-flag", "element is marked as modified but was not: %r" % p.text.__self__, text=text)
            if changed and nows(p.text()) != nows(text[p.pos:p.end]):
                mon.check(p.modified, keyname or "not-marked", "modified element is not marked: %r" % p.text.__self__, text=text)
    result = []
    pos = 0
    for p, e, t in edits:
        result.append(text[pos:p])
        result.append(t)
        pos = e
    result.append(text[pos:])
    result = "".join(result)
    # comments keep their whitespace, so compare without
    a, b = nows("".join(parts)), nows(result)
    mon.check(a == b, keyname or "text", "text after the edits is not the text of the modified tree", expected=a, got=b, text=text,
              result=result, edits=edits)
    mon.ev("conserved")
    # what is to be left alone
    if moved is True:
        return result
    kept = [p for p in new if p.pos is not None and not p.modified and id(p.text.__self__) not in (moved or ())]
    order = [p.pos for p in kept]
    if order != sorted(order):
        return result
    for p in kept:
        for x, y, t in edits:
            if (x < p.end and y > p.pos) or (x == y and p.pos < x < p.end):
                mon.fail(keyname or "untouched", "text of an untouched element is edited: %r" % p.text.__self__, edits=edits, text=text, result=result)
    mon.ev("untouched kept", len(kept))
    orig = list(d.points.values())
    index = {key(p): i for i, p in enumerate(orig)}
    for p, q in zip(new, new[1:]):
        i, j = index.get(key(p)), index.get(key(q))
        if i is not None and j == i + 1 and not p.modified and not q.modified:
            for x, y, t in edits:
                if x < q.pos and y > p.end or x == y and p.end <= x <= q.pos:
                    mon.fail(keyname or "gap", "text between two untouched elements is edited: %r" % text[p.end:q.pos], edits=edits, text=text, result=result)
            mon.ev("gap kept")
    return result


def apply_check(mon, d, edits, result):
    """Apply the edits using the Element.edit() method, check the result."""
    n = d.tree.edit(d.doc)
    mon.check(n == len(edits), "edit-count", "edit() returned %r instead of %d" % (n, len(edits)), text=d.text)
    mon.check(d.doc.text() == result, "edit-result", "document has other text than the edits produce", text=d.text, edits=edits,
              expected=result, got=d.doc.text())
    mon.ev("applied")


def norm(tree):
    tree = tree.copy()
    for n in list(tree // lily.DurationScaling):
        if n.head == 1:
            n.parent.remove(n)
    for n in [tree] + list(tree.descendants()):
        if isinstance(n, base.SinglelineComment):
            # space left at the end of the line belongs to the comment
            n.head = n.head.rstrip()
    return tree


def reread(mon, d, result, reader, ops):
    want = d.tree.copy_with_origin()
    util.replace_unknown(want, d.text)
    back = quiet(reader, want.write())
    if tree_diff(norm(want), norm(back)) is not None:
        mon.ev("unreadable tree")
        return
    got = quiet(reader, result)
    diff = tree_diff(norm(want), norm(got))
    mon.check(diff is None, "reread", "edited document reads as another tree: %s" % diff, text=d.text, result=result, ops=ops)
    mon.ev("reread")


def check_copy(rng, mon, d, edits):
    """A copy with origin is written back the same way."""
    if rng.random() < .3:
        copy = d.tree.copy_with_origin()
        got = list(copy.edits(d.doc.builder().root))
        mon.check(got == edits, "copy", "a copy with origin of the modified tree has other edits", text=d.text, edits=edits, copy=got)
        mon.ev("edits of a copy")


def same_value(v):
    """Return an equal value that is another object."""
    if isinstance(v, str):
        return "".join(list(v))
    if isinstance(v, Fraction):
        return Fraction(v.numerator, v.denominator)
    if type(v) in (int, float) and v == v:     # nan is never equal
        return type(v)(repr(v))
    if type(v) in (list, tuple):
        return type(v)(map(same_value, v))
    return v


def set_same(rng, mon, tree):
    """Set heads and properties to the value they already have; that is no modification."""
    for n in tree.descendants():
        if rng.random() < .2:
            if isinstance(n, element.TextElement) and n.head == n.head:
                n.head = same_value(n.head)
                mon.ev("set the same head")
            for cls, names in PROPERTIES:
                if isinstance(n, cls):
                    for name in names:
                        value = getattr(n, name)
                        if value is not None:
                            setattr(n, name, same_value(value))
                            mon.ev("set the same property")


PROPERTIES = [
    (lily.Pitchable, ("octave", "accidental", "oct_check")),
    (lily.HandleDuration, ("duration", "scaling")),
]


def run(rng, mon, lex, reader, text, ops, nops):
    d = Doc(lex, text)
    same = rng.random() < .3
    if same:
        set_same(rng, mon, d.tree)
    mon.check(list(d.tree.edits(d.doc.builder().root)) == [], "no-edits", "%s tree has edits" % ("unmodified", "tree with the same values set again")[same],
              text=text, edits=list(d.tree.edits(d.doc.builder().root)))
    mon.ev("no edits")
    touched = set()
    keep = []       # keep the ids valid
    done = []
    for i in range(nops):
        name = rng.choice(list(ops))
        n = ops[name](rng, d.tree, touched)
        if n is None:
            continue
        keep.append(n)
        mon.ev("op " + name)
        done.append(name)
    if not done:
        return
    edits = list(d.tree.edits(d.doc.builder().root))
    check_copy(rng, mon, d, edits)
    result = check_edits(mon, d, edits, touched)
    apply_check(mon, d, edits, result)
    reread(mon, d, result, reader, done)
    mon.nontrivial(sig(d.tree))
    mon.sample({"text": text, "ops": done, "edits": edits})


LY = (lilypond.LilyPond.root, read.lily_document)
SC = (scheme.Scheme.root, read.scm_document)
HT = (html.Html.root, read.htm_document)
TX = (latex.Latex.root, read.tex_document)


def gen_ly(rng):
    g = LyGen(rng, comments=rng.choice([0, .05, .12]), size=rng.choice([.5, 1, 1]))
    return g.document(rng.randint(1, 3), rng.randint(1, 4))


def gen_music(rng):
    g = LyGen(rng, comments=rng.choice([0, .05, .12]), size=rng.choice([.5, 1, 1]))
    from vt.lygen import render
    return render(rng, g.musiclist(rng.randint(0, 2))) if False else g.document(rng.randint(0, 2), rng.randint(1, 2))


def case_ly(rng, mon):
    run(rng, mon, *LY, gen_ly(rng), OPS, rng.choice([0, 1, 1, 2, 3, 6]))


def case_scm(rng, mon):
    text = ScmGen(rng).document(rng.randint(1, 4))[0]
    run(rng, mon, *SC, text, OPS, rng.choice([0, 1, 1, 2, 3, 6]))


def case_htm(rng, mon):
    run(rng, mon, *HT, HtmGen(rng).document()[0], OPS, rng.choice([0, 1, 1, 2, 3]))


def case_tex(rng, mon):
    run(rng, mon, *TX, TexGen(rng).document()[0], OPS, rng.choice([0, 1, 1, 2, 3]))


def case_move(rng, mon):
    """A single move: everything else stays."""
    which = rng.random()
    if which < .8:
        lex, reader, text = *LY, gen_ly(rng)
    else:
        lex, reader, text = *SC, ScmGen(rng).document(rng.randint(1, 4))[0]
    d = Doc(lex, text)
    name = rng.choice(list(MOVES))
    n = MOVES[name](rng, d.tree, set())
    if n is None:
        return
    mon.ev("op " + name)
    moved = set(map(id, n.descendants())) | {id(n)}
    edits = list(d.tree.edits(d.doc.builder().root))
    # an element moved at the side of few others may stay where it is, while the others move
    new = [p for p in d.tree.points() if p.pos is not None or p.text()]
    inner = [p for p in new if id(p.text.__self__) in moved]
    result = check_edits(mon, d, edits, set(), True)
    kept = [p for p in new if p.pos is not None and id(p.text.__self__) not in moved and not any(x < p.end and y > p.pos for x, y, t in edits)]
    total = len(new) - len(inner)
    # the number of points left alone is at least that of leaving alone all but the moved element
    alone = [p for p in new if p.pos is not None and not any(x < p.end and y > p.pos for x, y, t in edits)]
    mon.check(len(alone) >= total, "move-extent", "moving an element rewrites others: %d of %d" % (len(alone), len(new)), text=text, edits=edits)
    mon.ev("move extent")
    apply_check(mon, d, edits, result)
    reread(mon, d, result, reader, [name])
    mon.nontrivial(sig(d.tree))


def case_comment(rng, mon):
    """With comments at unusual places, nothing is edited when nothing is changed."""
    for text, where, chosen in comment_texts(rng):
        if where:
            d = Doc(LY[0], text)
            edits = list(d.tree.edits(d.doc.builder().root))
            mon.check(not edits, "unmodified-edited", "edits after a comment after %s, without changes: %s" % (where, edits[:3]), text=text)
            mon.ev("comment, no edits")
            mon.nontrivial(text)


def case_mix(rng, mon):
    """Several operations including moves."""
    text = gen_ly(rng)
    d = Doc(LY[0], text)
    touched, keep, done = set(), [], []
    allops = {**OPS, **MOVES}
    for i in range(rng.randint(2, 6)):
        name = rng.choice(list(allops))
        n = allops[name](rng, d.tree, touched)
        if n is None:
            continue
        keep.append(n)
        done.append(name)
        mon.ev("op " + name)
    edits = list(d.tree.edits(d.doc.builder().root))
    check_copy(rng, mon, d, edits)
    result = check_edits(mon, d, edits, touched, True)
    apply_check(mon, d, edits, result)
    reread(mon, d, result, LY[1], done)
    mon.nontrivial(sig(d.tree))


def case_range(rng, mon):
    """Writing back with a range: nothing outside is deleted, the rest is written as always."""
    k = rng.randrange(6)
    lex, reader, text = (*LY, gen_ly(rng)) if k < 4 else (*SC, ScmGen(rng).document(rng.randint(1, 4))[0]) if k == 4 else (*TX, TexGen(rng).document()[0])
    d = Doc(lex, text)
    touched, keep = set(), []
    allops = {**OPS, **MOVES} if lex is LY[0] and rng.random() < .3 else OPS
    for i in range(rng.randint(1, 4)):
        n = allops[rng.choice(list(allops))](rng, d.tree, touched)
        if n is not None:
            keep.append(n)
    if not keep:
        return
    root = d.doc.builder().root
    full = list(d.tree.edits(root))
    n = len(text)
    start, end = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    tokens = [(t.pos, t.end) for t in root.tokens()]
    edges = [p for t in tokens for p in t]
    if rng.random() < .7 and edges:
        start, end = sorted((rng.choice(edges), rng.choice(edges)))
    # a range that starts or ends inside a token
    whole = all(not a < start < b and not a < end < b for a, b in tokens)
    limits = dict(start=start, end=end)
    k = rng.random()
    if k < .15:
        limits["start"], start = None, root.pos
    elif k < .3:
        limits["end"], end = None, root.end
    edits = list(d.tree.edits(root, **limits))
    pos = -1
    for x, y, t in edits:
        mon.check(pos <= x <= y, "range-order", "edits overlap or are not in order", text=text, edits=edits, **limits)
        pos = y
    modified = [(p.pos, p.end) for p in d.tree.points() if p.pos is not None and p.modified]
    deleted = lambda edits: [any(x < b and y > a for x, y, t in edits) for a, b in tokens]
    for (a, b), all_, lim in zip(tokens, deleted(full), deleted(edits)):
        if any(x < b and y > a for x, y in modified):
            continue    # that its new text is written is checked below
        elif b <= start or a >= end:
            mon.check(not lim, "range-outside", "%r is outside the range, but deleted" % text[a:b], at=a, text=text, edits=edits, full=full, **limits)
            if all_: mon.ev("kept outside range")
        elif a < start < b or a < end < b:
            for u, v in ((a, min(b, start)), (max(a, end), b)):
                mon.check(u >= v or not any(x < v and y > u for x, y, t in edits), "range-outside", "%r is outside the range, but deleted" % text[u:v],
                          at=a, text=text, edits=edits, full=full, **limits)
            if all_: mon.ev("token at the edge of the range")
        elif whole:
            mon.check(all_ == lim, "range-inside", "%r should be %s" % (text[a:b], "deleted" if all_ else "kept"), at=a, text=text, edits=edits, full=full, **limits)
            if all_: mon.ev("deleted in range")
    a, b = ("".join("".join(t for x, y, t in e).split()) for e in (full, edits))
    mon.check(a == b, "range-added", "not the same text added", text=text, edits=edits, full=full, **limits)
    mon.ev("range")
    if full:
        mon.nontrivial(sig(d.tree), start, end)


# ---- the exact text after simple modifications

ITEMS = [("c", lily.Note), ("d4", lily.Note), ("e'8.", lily.Note), ("r2", lily.Rest), ("<c e>4", lily.Chord), ("s1*3/4", lily.Space),
         ("\\stemUp", lily.GrobDirection), ("{ g a }", lily.MusicList), ("f2-.", lily.Note), ("\\clef bass", lily.Clef), ("R1", lily.MultiMeasureRest)]
SEPS = [" ", " ", "  ", "\n", "\n  ", "\n\n", "\t", " \n "]


def case_exact(rng, mon):
    """Replacing, removing and changing elements in a music list: the exact text can be predicted."""
    begin, end = rng.choice((("{", "}"), ("music = {", "}\n\\score { \\music }\n"), ("<<", ">>"), ("\\new Staff {", "} % end"), ("", "")))
    items = []      # (separator, text, is_comment)
    for _ in range(rng.randint(1, 7)):
        sep = rng.choice(SEPS)
        if rng.random() < .2:
            items.append((sep, rng.choice(("%{ x %}", "%{ y\n y %}", "% z\n"))))
            if items[-1][1][-1] == "\n":
                items[-1] = (sep, items[-1][1][:-1])
                items.append((rng.choice(("\n", "\n  ", "\n\n")), rng.choice(ITEMS)[0]))
                continue
        items.append((sep, rng.choice(ITEMS)[0]))
    last = rng.choice(SEPS)
    if items[0][0] and not begin:
        items[0] = ("", items[0][1])
    text = begin + "".join(a + b for a, b in items) + last + end
    d = Doc(lilypond.LilyPond.root, text)
    container = d.tree if not begin else next(iter(d.tree.instances_of((lily.MusicList, lily.SimultaneousMusicList))))
    nodes = list(container)
    mon.check(len(nodes) == len(items), "harness", "read as %r" % nodes, text=text)
    out, history = begin, []
    exact = True
    prev = "kept"       # the last thing in the new text
    removed = False     # something was removed just before
    keepsep = None
    for (sep, t), n in zip(items, nodes):
        if keepsep is not None and prev == "linecomment":
            sep = keepsep       # the newline after a line comment stays
        else:
            keepsep = None
        k = rng.choice(("keep", "keep", "keep", "replace", "remove", "change"))
        if t.startswith("%"):
            k = "keep"
        if k == "change" and not (isinstance(n, lily.Durable) and not isinstance(n, lily.Chord)):
            k = "keep"
        if k == "replace" and isinstance(n, lily.Clef):
            k = "remove"
        history.append((t, k))
        if k == "keep":
            out += sep + t
        elif k == "replace":
            if removed or prev in ("replace", "change"):
                exact = False       # the whitespace between two new elements is not specified
            new = rng.choice((lily.Note("b", lily.Duration(.5)), lily.Rest(), lily.MusicList(lily.Note("a"), lily.Note("b")), lily.MusicFunction("stemUp")))
            nt = new.write()
            if n.parent is container:
                n.replace_with(new)
            out += sep + nt
        elif k == "remove":
            container.remove(n)
            if out == "":
                exact = False
        else:
            had = re.match(r"(.*?[a-zR']+)(\d+\.?)?(\*\d+/\d+)?(.*)$", t)
            v = rng.choice((None, Fraction(1, 4), Fraction(1), Fraction(3, 8)))
            n.duration = v
            dt = {None: "", Fraction(1, 4): "4", Fraction(1): "1", Fraction(3, 8): "4."}[v]
            out += sep + had.group(1) + dt + (had.group(3) or "" if v else "") + had.group(4)
            history[-1] += (dt,)
        keepsep = sep if k == "remove" else None
        removed = k == "remove" or k == "change" and v is None
        if k != "remove":
            prev = "linecomment" if t.startswith("% ") else k
    ctx = dict(text=text, history=history)
    if removed and not begin:
        # trailing whitespace at the end of a document
        exact = False
    if prev == "linecomment" and removed:
        exact = False
    if not end and removed:
        exact = False
    want = out + last + end
    d.tree.edit(d.doc)
    new = d.doc.text()
    mon.check(nows(new) == nows(want), "exact", "new text %r, should be %r" % (new, want), **ctx)
    if exact:
        mon.check(new == want, "exact", "new text %r, should be %r" % (new, want), **ctx)
        mon.ev("exact")
    mon.nontrivial(text, tuple(history))


STREAMS = {
    "exact": Stream(case_exact, 6000, 100000),
    "comment": Stream(case_comment, 1000, 30000),
    "lilypond": Stream(case_ly, 3500, 120000),
    "scheme": Stream(case_scm, 1000, 40000),
    "html": Stream(case_htm, 600, 20000),
    "latex": Stream(case_tex, 600, 20000),
    "move": Stream(case_move, 1500, 50000),
    "mix": Stream(case_mix, 1000, 40000),
    "range": Stream(case_range, 2000, 60000),
}
