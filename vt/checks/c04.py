r"""C04: reading never fails; the tree is traceable to the text."""
import contextlib
import io
import re

import parce

from vt.core import Stream
from vt.lygen import LyGen, mutate
from vt.docgen import HtmGen, TexGen, junk, damage
from vt.scmgen import ScmGen
from vt.util import tree_diff, sig
from quickly.dom import base, htm, read, util, element
from quickly.lang import html, latex, lilypond, scheme

PROPERTY = "C04"
RULE = ("Hostile text of four languages (random fragments, damaged and truncated documents, mutated characters, any "
        "Unicode) is read with and without origin and through a live parce document, written plainly and indented, "
        "dumped and read again; any exception is a violation, and position invariants (order, containment, range) are "
        "monitored on every node. For undamaged generated documents the text at a position is compared with the "
        "element's own text and every non-blank character must belong to an element; lookups by position are compared with brute "
        "force over the tree. Non-trivial: the tree has at least 3 elements; distinct by tree shape.")
ASSUMPTIONS = ["Scheme numbers have exponents of at most two digits (exact numbers like #e1e9999999999 are computed by parce, and don't fit in memory)",
               "htm.Unknown nodes (style, script, doctype) are replaced using util.replace_unknown before writing, as documented",
               "where an element normalizes its text (escapes, number notation, scalings) the text at its position may differ from the written head, and then only its type and place are judged"]
NEED = ("read hostile lily", "read hostile scm", "read hostile htm", "read hostile tex", "written", "written indented",
        "node position", "node in order", "head text at position", "covered character", "find_child", "find_descendants", "find_descendant_right",
        "find_descendant_left", "find hit", "live equals plain", "dumped", "origin equals plain", "unfinished lily", "unfinished scm", "unfinished tex", "unfinished htm", "comment in unfinished text", "single element")

ROOT = dict(lily=lilypond.LilyPond.root, scm=scheme.Scheme.root, htm=html.Html.root, tex=latex.Latex.root)


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def reader(kind):
    return getattr(read, kind + "_document")


def document(rng, kind):
    if kind == "lily":
        g = LyGen(rng, comments=rng.choice([0, .05]), size=rng.choice([.5, 1]))
        return g.document(rng.randint(1, 3), rng.randint(1, 3))
    if kind == "scm":
        return ScmGen(rng).document(rng.randint(1, 4))[0]
    return (HtmGen if kind == "htm" else TexGen)(rng).document()[0]


UNI = ["\x00", "\ufeff", "\u2028", "\u00a0", "\U0001d11e", "e\u0301", "\r\n", "\r", "\x0c", "\t", "\ud7ff", "\uffff", "\x85", "\x1f", "٣", "²", "½"]


def hostile(rng, kind):
    # exact numbers with astronomical exponents don't fit in any memory
    return re.sub(r"([eEdDsSfFlL][-+]?\d{2})\d+", r"\1", hostile_text(rng, kind))


def hostile_text(rng, kind):
    k = rng.randrange(10)
    if k <= 3:
        return junk(rng, kind)
    t = document(rng, kind)
    if k <= 6:
        return damage(rng, t, kind)
    if k == 7:
        for _ in range(rng.randint(1, 5)):
            a = rng.randint(0, len(t))
            t = t[:a] + rng.choice(UNI) + t[a:]
        return t
    if k == 8:
        # text of another language
        return document(rng, rng.choice(["lily", "scm", "htm", "tex"]))
    return mutate(rng, t)


def check_positions(mon, d, text, ordered=False):
    r"""Positions are in the text; ordered and inside the parent for
    undamaged text."""
    n = len(text)
    for e in [d] + list(d.descendants()):
        pos, end = e.pos, e.end
        if pos is None:
            mon.check(end is None, "end-without-pos", "element has an end but no position", element=repr(e), text=text)
            continue
        mon.check(end is not None and 0 <= pos <= end <= n, "position-range", "position outside the text",
                  pos=pos, end=end, length=n, element=repr(e), text=text)
        last = pos
        for c in list.__iter__(e):
            cp, ce = c.pos, c.end
            if cp is None or not ordered:
                continue
            mon.check(pos <= cp and ce <= end, "containment", "child %r is not inside %r" % (c, e), child=(cp, ce), parent=(pos, end), text=text)
            mon.check(last <= cp, "order", "child %r of %r is before the end of the previous one" % (c, e), child=(cp, ce), last=last, text=text)
            last = ce
        if ordered:
            mon.ev("node in order")
        mon.ev("node position")


def case_hostile(rng, mon):
    kind = ["lily", "scm", "htm", "tex"][mon.index % 4]
    text = hostile(rng, kind)
    d = quiet(reader(kind), text)
    mon.ev("read hostile " + kind)
    o = quiet(reader(kind), text, True)
    diff = tree_diff(d, o)
    mon.check(diff is None, "origin-tree", "tree with origin differs: %s" % diff, text=text)
    mon.ev("origin equals plain")
    used = {}
    for e in [o, *o.descendants()]:
        for t in [*getattr(e, "head_origin", ()), *getattr(e, "tail_origin", ())]:
            mon.check(t.pos not in used, "origin-twice", "the token %r is the origin of %r and %r" % (t, used.get(t.pos), e), text=text)
            used[t.pos] = e
    mon.ev("origin tokens", len(used) or 1)
    check_positions(mon, o, text)
    if text and rng.random() < .3:
        doc = parce.Document(ROOT[kind], text, transformer=True)
        t = quiet(doc.get_transform, True)
        diff = tree_diff(t, o)
        mon.check(diff is None, "live-tree", "tree from a parce document differs: %s" % diff, text=text)
        check_positions(mon, t, text)
        mon.ev("live equals plain")
    util.replace_unknown(o, text)
    for e in [o] + list(o.descendants()):
        repr(e)
    o.dump(file=io.StringIO())
    o.py_dump(file=io.StringIO())
    mon.ev("dumped")
    w = o.write()
    mon.check(isinstance(w, str), "write-type", "write() returned no text")
    mon.ev("written")
    wi = o.write_indented(rng.choice([1, 2, 4]), rng.choice([0, 3]), rng.choice([0, 16]))
    mon.ev("written indented")
    w2 = quiet(reader(kind), w, True)
    check_positions(mon, w2, w)
    quiet(reader(kind), wi)
    c = o.copy_with_origin()
    mon.check(tree_diff(c, o) is None, "copy", "copy differs", text=text)
    n = sum(1 for _ in d.descendants())
    if n >= 3:
        mon.nontrivial(kind, sig(d))
    mon.sample(text)


# element types whose written head may differ from the text they were read from
def normalizing(e):
    name = type(e).__name__
    mod = type(e).__module__.split(".")[-1]
    if mod == "scm":
        return name in ("Number", "Int", "Float", "Hex", "Oct", "Bin", "Fraction", "String", "Char", "Bool", "Radix")
    if mod == "htm":
        return name in ("String", "Text", "SqString", "DqString", "EntityRef", "CData", "Comment", "ProcessingInstruction", "Unit", "Number")
    return name in ("String", "DurationScaling", "Unknown", "Number", "Int", "Float", "Fraction")


def case_positions(rng, mon):
    kind = ["lily", "lily", "scm", "htm", "tex"][mon.index % 5]
    text = document(rng, kind)
    d = quiet(reader(kind), text, True)
    check_positions(mon, d, text, True)
    unknown = [(n.pos, n.end) for n in d // element.Element if type(n).__name__ == "Unknown"]
    mon.check(kind == "htm" or not unknown, "unknown", "unknown element in well-formed text", text=text)
    util.replace_unknown(d, text)
    covered = bytearray(len(text))
    last = 0
    for e in [d] + list(d.descendants()):
        p = e.head_point()
        if p is None or p.pos is None:
            continue
        own, src = p.text(), text[p.pos:p.end]
        if not normalizing(e):
            mon.check("".join(own.split()) == "".join(src.split()) or commentless(src) == "".join(own.split()), "head-text", "text at the position of %r is not its text" % e,
                      own=own, source=src, text=text)
            mon.ev("head text at position")
        else:
            mon.ev("normalizing head")
    last = -1
    for p in d.points():
        if p.pos is None:
            t = p.text()
            mon.check(not t, "no-origin", "element of read text writes %r without a position" % t, text=text)
            continue
        mon.check(p.pos >= last, "point-order", "text pieces are not in text order", pos=p.pos, last=last, text=text)
        last = p.end
        covered[p.pos:p.end] = b"\1" * (p.end - p.pos)
    for i, c in enumerate(text):
        if not c.isspace():
            mon.check(covered[i], "not-covered", "text at %d belongs to no element: %r" % (i, text[max(0, i-20):i+20]), text=text)
            mon.ev("covered character")
    find(rng, mon, d, text, 12)
    if len(text) > 8:
        mon.nontrivial(kind, sig(d))
    mon.sample(text)


def case_unfinished(rng, mon):
    """A document that is being typed: only the end may be unrecognized."""
    kind = ["lily", "scm", "tex", "htm"][mon.index % 4]
    text = document(rng, kind)
    text = text[:rng.randrange(len(text) + 1)]
    d = quiet(reader(kind), text, True)
    check_positions(mon, d, text)
    covered = bytearray(len(text))
    for p in d.points():
        if p.pos is not None:
            covered[p.pos:p.end] = b"\1" * (p.end - p.pos)
    for i, c in enumerate(text):
        if not c.isspace() and not covered[i] and kind != "htm":    # style attributes etc. can be long
            rest = text[i:]
            ok = re.fullmatch(r"[#'`,@\\.\s]*", rest) if kind == "scm" else len(rest.split()) <= 4
            mon.check(ok, "unfinished-lost", "text at %d of the unfinished document belongs to no element: %r" % (i, rest[:60]), text=text)
            break
    mon.ev("unfinished " + kind)
    for e in d.descendants():
        if isinstance(e, htm.CData):
            own, src = e.head, text[e.pos:e.end][9:].rstrip("]>")
            mon.check(own.startswith(src), "unfinished-cdata", "the text of a CDATA element is not its text in the document", own=own, source=src, text=text)
        if isinstance(e, base.Comment):
            own, src = e.write_head(), text[e.pos:e.end]
            mon.check(own.startswith(src) if kind != "htm" else own[:4] == src[:4] and own[4:-3].strip().startswith(src[4:-3].strip()[:-3]), "unfinished-comment",
                      "the text of a comment is not its text in the document", own=own, source=src, text=text)
            mon.ev("comment in unfinished text")
    # one element
    with_origin = rng.random() < .5
    one = quiet(getattr(read, kind), text, with_origin)
    first = next(iter(d), None)
    if first is None:
        mon.check(one is None, "single", "an element is read from text without elements", text=text)
    else:
        diff = tree_diff(one, first)
        mon.check(diff is None, "single", "the single element read is another than the first of the document: %s" % diff, text=text)
        mon.check(one.pos == (first.pos if with_origin else None), "single-origin", "the single element read (with_origin=%s) has position %s" % (with_origin, one.pos), text=text)
        mon.ev("single element")


def commentless(s):
    import re
    s = re.sub(r"%\{.*?%\}|%[^\n]*", "", s, flags=re.S)
    return "".join(s.split())


def preorder(e):
    for c in list.__iter__(e):
        yield c
        yield from preorder(c)


def find(rng, mon, d, text, times):
    r"""Compare the position lookups with brute force."""
    nodes = [(n, n.pos, n.end) for n in preorder(d)]
    nodes = [t for t in nodes if t[1] is not None]
    spots = sorted({p for n, a, b in nodes for p in (a, b)})
    for _ in range(times):
        if spots and rng.random() < .6:
            p = rng.choice(spots) + rng.choice([0, 0, 0, 1, -1])
        else:
            p = rng.randint(-1, len(text) + 1)
        base = d if not nodes or rng.random() < .6 else rng.choice(nodes)[0]
        sub = [t for t in nodes if base is d or any(a is base for a in t[0].ancestors())]

        def touching(parent):
            best = None
            for n in list.__iter__(parent):
                a, b = n.pos, n.end
                if a is not None and a <= p <= b:
                    best = n
            return best
        w = dict(position=p, base=repr(base), text=text)
        exp = touching(base)
        got = base.find_child(p)
        mon.check(got is exp, "find_child", "find_child(%d): %r, expected %r" % (p, got, exp), **w)
        mon.ev("find_child")
        chain = []
        q = base
        while True:
            q = touching(q)
            if q is None:
                break
            chain.append(q)
        got = list(base.find_descendants(p))
        mon.check(len(got) == len(chain) and all(x is y for x, y in zip(got, chain)), "find_descendants",
                  "find_descendants(%d): %r, expected %r" % (p, got, chain), **w)
        got = base.find_descendant(p)
        mon.check(got is (chain[-1] if chain else None), "find_descendant", "find_descendant(%d): %r, expected %r" % (p, got, chain[-1:]), **w)
        end = p + rng.choice([0, 1, 3, 10, -2])
        e2 = max(end, p)
        exp = []
        for n in chain:
            if n.end < e2:
                break
            exp.append(n)
        got = list(base.find_descendants(p, end))
        mon.check(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), "find_descendants-range",
                  "find_descendants(%d, %d): %r, expected %r" % (p, end, got, exp), **w)
        mon.ev("find_descendants")
        if chain:
            mon.ev("find hit")
        exp = next((n for n, a, b in sub if a >= p and b > p), None)
        got = base.find_descendant_right(p)
        mon.check(got is exp, "find_descendant_right", "find_descendant_right(%d): %r, expected %r" % (p, got, exp), **w)
        mon.ev("find_descendant_right")
        cand = [t for t in sub if t[2] <= p and t[1] < p]
        exp = None
        if cand:
            m = max(t[2] for t in cand)
            # the last one in the document, but the outermost of nested nodes
            # ending at the same place
            last = [t[0] for t in cand if t[2] == m][-1]
            exp = last
            cset = {id(t[0]) for t in cand}
            for a in last.ancestors():
                if id(a) in cset and a.end == m:
                    exp = a
        got = base.find_descendant_left(p)
        mon.check(got is exp, "find_descendant_left", "find_descendant_left(%d): %r, expected %r" % (p, got, exp), **w)
        mon.ev("find_descendant_left")


STREAMS = {
    "positions": Stream(case_positions, 1500, 30000),
    "hostile": Stream(case_hostile, 4000, 120000),
    "unfinished": Stream(case_unfinished, 1800, 40000),
}
