r"""C07: copies and equality."""
import contextlib
import io

import parce
from parce.transform import Transformer

from vt.core import Stream
from vt.lygen import LyGen, mutate
from vt.docgen import HtmGen, TexGen
from vt.scmgen import ScmGen
from vt.util import tree_diff, sig, _head
from vt.checks import c05
from quickly.dom import read, lily, base, element, scm, htm, tex, util

PROPERTY = "C07"
RULE = ("Trees of generated LilyPond, Scheme, HTML and LaTeX documents (with and without origin, with random modifications "
        "and spacing) are copied, with and without origin, as a whole and in part, with and without children; then the "
        "original and the copies are modified in turn. Monitors: structural signature, written and indented text, positions, "
        "modified state, node identity and parent links, pending edits; equals() against the structural signature for pairs of "
        "trees at small edit distance. Non-trivial: at least five nodes; distinct by tree shape.")
ASSUMPTIONS = ["a HTML text node is written (un)escaped depending on its parent, so it is compared as part of its parent"]
NEED = ("copy equal", "copy writes same", "no shared nodes", "independent", "origin kept", "edits kept", "equals true", "equals false",
        "without children", "spacing kept", "origin copied")

SPACES = ("space_before", "space_after", "space_between", "space_after_head", "space_before_tail")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def gen(rng, size=None):
    """Return (lexicon, text)."""
    k = rng.randrange(10)
    if k < 6:
        g = LyGen(rng, comments=rng.choice([0, .05]), size=rng.choice([.4, .7, 1]))
        text = g.document(rng.randint(1, 2), rng.randint(1, 3))
        if rng.random() < .1:
            text = mutate(rng, text)
        return c05.LY[0], text
    elif k < 8:
        return c05.SC[0], ScmGen(rng).document(rng.randint(1, 3))[0]
    elif k == 8:
        return c05.HT[0], HtmGen(rng).document()[0]
    return c05.TX[0], TexGen(rng).document()[0]


def state(tree):
    """Everything observable of a tree."""
    out = []
    def visit(n):
        p = n.head_point()
        q = n.tail_point()
        out.append((type(n), _head(n), len(n), tuple(getattr(n, s) for s in SPACES),
                    p and (p.pos, p.end, p.modified), q and (q.pos, q.end, q.modified)))
        for c in list.__iter__(n):
            visit(c)
    visit(tree)
    return out


def write(tree, text):
    """Write; Unknown elements (HTML/LaTeX) are written as the text they stand for."""
    try:
        return tree.write()
    except RuntimeError:
        return None


def check_links(mon, tree, what):
    for n in tree.descendants():
        for c in list.__iter__(n):
            mon.check(c.parent is n, "parent", "wrong parent in %s" % what, node=repr(c))
    for c in list.__iter__(tree):
        mon.check(c.parent is tree, "parent", "wrong parent in %s" % what, node=repr(c))


def make_tree(rng, mon):
    lex, text = gen(rng)
    origin = rng.random() < .6
    doc = parce.Document(lex, text) if origin else None
    if origin:
        tree = quiet(Transformer().transform_tree, doc.get_root(True))
    else:
        tree = quiet(Transformer().transform_tree, parce.root(lex, text)).copy()
    keep = []
    if rng.random() < .6:
        for i in range(rng.randint(1, 3)):
            name = rng.choice(list(ALLOPS))
            keep.append(ALLOPS[name](rng, tree, set()))
    if rng.random() < .5:
        for n in tree.descendants():
            if rng.random() < .15:
                setattr(n, rng.choice(SPACES), rng.choice(["", " ", "\n", "\n\n", "  "]))
    return lex, text, doc, tree, keep


ALLOPS = {**c05.OPS, **c05.MOVES}


def modify(rng, tree):
    """Modify the tree, return True if something changed."""
    changed = False
    keep = []
    before = state(tree)
    for i in range(rng.randint(1, 4)):
        k = rng.randrange(4)
        if k == 0:
            n = rng.choice([tree] + list(tree.descendants()))
            setattr(n, rng.choice(SPACES), rng.choice(["", " ", "\n", "\n\n", "  "]))
        elif k == 1:
            nodes = [n for n in tree.descendants() if len(n)]
            if nodes:
                n = rng.choice(nodes)
                rng.choice([lambda: n.clear(), lambda: n.pop(), lambda: n.append(lily.Note("c")), lambda: n.reverse()])()
        else:
            name = rng.choice(list(ALLOPS))
            keep.append(ALLOPS[name](rng, tree, set()))
    return state(tree) != before


def case_copy(rng, mon):
    lex, text, doc, tree, keep = make_tree(rng, mon)
    nodes = [tree] + list(tree.descendants())
    if len(nodes) > 1 and rng.random() < .3:
        node = rng.choice(nodes)
        if isinstance(node, (htm.Text, htm.String)):
            node = tree     # text is written (un)escaped depending on where it is
    else:
        node = tree
    part = [node] + list(node.descendants())
    s0, st0, w0 = sig(node), state(node), write(node, text)
    whole0 = state(tree)

    # with children
    a = node.copy()
    b = node.copy_with_origin()
    for c, what in ((a, "copy"), (b, "copy with origin")):
        mon.check(sig(c) == s0, "copy-differs", "%s differs: %s" % (what, tree_diff(node, c)), text=text)
        mon.check(c.equals(node) and node.equals(c), "copy-unequal", "%s is not equal" % what, text=text)
        mon.ev("copy equal")
        mon.check(c.parent is None, "copy-parent", "%s has a parent" % what)
        mon.check(write(c, text) == w0, "copy-write", "%s writes differently" % what, first=w0, second=write(c, text), text=text)
        if w0 is not None:
            mon.check(c.write_indented() == node.write_indented(), "copy-indent", "%s writes differently indented" % what, text=text)
        mon.ev("copy writes same")
        ids = set(map(id, part))
        cp = [c] + list(c.descendants())
        mon.check(not any(id(n) in ids for n in cp), "shared-node", "%s shares nodes with the original" % what, text=text)
        mon.ev("no shared nodes", len(cp))
        check_links(mon, c, what)
        st = state(c)
        mon.check([x[3] for x in st] == [x[3] for x in st0], "spacing", "%s has other spacing" % what, text=text)
        mon.ev("spacing kept")
        if c is b:
            diff = [(x, y) for x, y in zip(st, st0) if x != y]
            mon.check(not diff, "origin", "positions or modified state differ in the copy with origin: %r" % diff[:1], text=text)
            mon.ev("origin kept")
    mon.check(state(tree) == whole0, "original-changed", "copying changed the original", text=text)
    check_links(mon, tree, "original")
    if node is tree and doc is not None and w0 is not None:
        root = doc.get_root(True)
        e1, e2 = list(tree.edits(root)), list(b.edits(root))
        mon.check(e1 == e2, "edits", "copy with origin has other pending edits", first=e1, second=e2, text=text)
        mon.ev("edits kept")

    # without children
    for n in [node] + rng.sample(part, min(len(part), 6)):
        s1, st1 = sig(n), state(n)
        for c, what in ((n.copy(with_children=False), "copy"), (n.copy_with_origin(with_children=False), "copy with origin")):
            mon.check(type(c) is type(n) and len(c) == 0, "childless", "%s without children has children" % what, text=text)
            if isinstance(n, element.TextElement):
                mon.check(sig(c)[:2] == s1[:2], "childless", "%s without children has another head" % what, text=text)
            st = state(c)[0]
            mon.check(st[3] == st1[0][3], "childless-spacing", "%s without children has other spacing: %r instead of %r" % (what, st[3], st1[0][3]), text=text)
            if what != "copy":
                mon.check(st[4:] == st1[0][4:], "childless-origin", "%s without children has another position" % what, text=text)
            mon.check(state(n) == st1, "childless-changed", "copying without children changed the node", text=text)
            mon.ev("without children")
        p = n.head_point()
        if p and p.pos is not None and isinstance(n, element.TextElement):
            # the origin of another node, as documented
            for flag in (None, True, False):
                c = n.copy()
                c.copy_origin_from(n, flag)
                q = c.head_point()
                want = p.modified if flag is None else flag
                mon.check((q.pos, q.end, q.modified) == (p.pos, p.end, want), "copy-origin", "copy_origin_from(%r) gives %r" % (flag, q), text=text)
                mon.ev("origin copied")

    # independence
    trees = {"original": node, "copy": a, "origin": b, "second": a.copy()}
    for i in range(3):
        name = rng.choice(list(trees))
        others = {n: state(t) for n, t in trees.items() if n != name}
        if modify(rng, trees[name]):
            mon.ev("modified")
        for n, st in others.items():
            mon.check(state(trees[n]) == st, "dependent", "modifying the %s changed the %s" % (name, n), text=text)
            mon.ev("independent")
    if len(part) >= 5:
        mon.nontrivial(s0)
    mon.sample(text)


def case_equals(rng, mon):
    """equals() is the same as having the same signature."""
    lex, text, doc, tree, keep = make_tree(rng, mon)
    other = rng.choice([tree.copy, tree.copy_with_origin])()
    k = rng.randrange(6)
    nodes = list(other.descendants())
    if nodes and k:
        for i in range(rng.choice([1, 1, 2])):
            n = rng.choice(nodes)
            if k == 1:
                modify(rng, other)
            elif k == 2 and n.parent is not None and any(x is n for x in n.parent):
                n.parent.remove(n)
            elif k == 3 and n.parent is not None and any(x is n for x in n.parent):
                m = rng.choice(nodes).copy()
                n.parent[n.parent.index(n)] = m
            elif k == 4:
                n.append(rng.choice(nodes).copy())
            elif isinstance(n, element.TextElement):
                m = [x for x in nodes if type(x) is type(n)]
                n.head = rng.choice(m).head
    want = sig(tree) == sig(other)
    for x, y in ((tree, other), (other, tree)):
        got = x.equals(y)
        mon.check(bool(got) == want, "equals", "equals() is %r but the trees %s: %s" % (got, "have the same structure" if want else "differ", tree_diff(tree, other)), text=text)
        mon.ev("equals true" if want else "equals false")
    if len(nodes) >= 5:
        mon.nontrivial(sig(tree), sig(other))


def case_pairs(rng, mon):
    """All pairs of elements in a document."""
    lex, text, doc, tree, keep = make_tree(rng, mon)
    nodes = list(tree.descendants())
    if len(nodes) > 40:
        nodes = rng.sample(nodes, 40)
    sigs = [sig(n) for n in nodes]
    for x, s in zip(nodes, sigs):
        for y, t in zip(nodes, sigs):
            got = bool(x.equals(y))
            mon.check(got == (s == t), "equals", "equals() is %r for %r and %r" % (got, x, y), text=text, diff=tree_diff(x, y))
            mon.ev("equals true" if got else "equals false")
    mon.nontrivial(tuple(map(repr, sigs)))


STREAMS = {
    "copy": Stream(case_copy, 2500, 120000),
    "equals": Stream(case_equals, 2500, 120000),
    "pairs": Stream(case_pairs, 500, 20000),
}
