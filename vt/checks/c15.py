r"""C15: relative to absolute and back."""
import re

import parce

from vt import refly
from vt.core import Stream
from vt.musgen import MusGen
from vt.muscheck import Doc, add_checks, abs_checks, clean, quiet
from vt.util import sig
from quickly.dom import lily
from quickly.lang import lilypond
from quickly.node import Range
from quickly.pitch import PitchProcessor
from quickly.relative import Rel2abs, Abs2rel, rel2abs, abs2rel

PROPERTY = "C15"
RULE = ("Generated documents (absolute, \\relative with and without start pitch, nested in each other, in \\transpose, \\absolute, "
        "repeats, voices, contexts; chords, pitched rests, chord mode, octave checks that pass or fail, \\octaveCheck, markup scores, "
        "language changes, comments) are converted to absolute or relative notation, as a whole, a selection or one music list, with the "
        "available options. An independent LilyPond evaluator computes the sounding pitches from the text before and after: all "
        "must be the same, with the same note names; no \\relative may be left where everything is made absolute, and the text "
        "must be the same apart from octave marks, the added or removed \\relative commands with their start pitch, and removed "
        "\\octaveCheck commands. Converting back and forth again must also keep the sounds. "
        "Non-trivial: documents where the text changed; distinct by text.")
ASSUMPTIONS = ["in chord mode inside \\relative the roots are taken to be relative, which is the convention in quickly and its tests",
               "\\relative or chord mode inside \\fixed are left out: the meaning depends on the reading of the LilyPond manual",
               "music in variables is not affected by a \\relative at the place where the variable is used"]
NEED = ("outside selection in document unchanged", "rel2abs selection in document", "abs2rel selection in document",
        "selection made absolute", "left in selection", "rel2abs whole", "rel2abs selection", "abs2rel whole", "abs2rel selection", "same sounds", "nothing relative left", "made relative",
        "octave check", "failing octave check", "octaveCheck removed", "in transpose", "nested relative", "chord", "no start pitch",
        "start pitch", "round trip", "language changed", "markup score", "rest same", "chord mode", "comments kept",
        "octaveCheck in absolute music", "a music list made relative")

ONLYCHECK = re.compile(r"\\octaveCheck\s*")


def convert(what, rng, d, fpa, processor, music=None):
    """Convert the document, return the used options."""
    music = d.tree if music is None else music
    if what == "rel2abs":
        if fpa is None and processor is None and rng.random() < .5:
            quiet(rel2abs, music)
        else:
            quiet(Rel2abs(processor, fpa).edit, music)
        return {}
    start = rng.random() < .5
    if start and fpa is None and processor is None and rng.random() < .5:
        quiet(abs2rel, music)
    else:
        quiet(Abs2rel(processor, start, fpa).edit, music)
    return {"start_pitch": start}


COMMENT = re.compile(r"%\{.*?%\}|%[^\n]*", re.S)


def skeleton(text, doc, what):
    """Everything but octaves, checks, \\relative and \\octaveCheck."""
    spans = []
    starts = {m.start.pos for m in doc.walk() if m.kind == "relative" and m.start is not None}
    octs = {m.pitch.pos for m in doc.walk() if m.kind == "octavecheck"}
    for a, b, m in doc.pitchspans:
        spans.append((a, b, "" if a in starts or a in octs and what == "rel2abs" else " \0" + m.name + " "))
    for m in doc.walk():
        if m.kind == "relative":
            spans.append((m.pos, m.pos + 9, ""))
        elif m.kind == "octavecheck" and what == "rel2abs":
            spans.append((m.pos, m.pos + 12, ""))
    spans += [(a, b, "=") for a, b in doc.checkspans]
    out, last = [], 0
    for a, b, by in sorted(spans):
        out += [text[last:a], by]
        last = b
    return " ".join(("".join(out) + text[last:]).split())


def compare(mon, what, text, new, doc, out, fpa, **info):
    doc2 = refly.parse(new, fpa)
    s2 = refly.Sound(doc2, True)
    info = dict(info, before=text, after=new, fpa=fpa)
    mon.check(not doc2.nolist or doc.nolist, "list-needed", "the argument of a command that needs a music list, is not a list anymore",
              at=[m.pos for m in doc2.nolist], **info)
    x, y = skeleton(text, doc, what), skeleton(new, doc2, what)
    nx, ny = x.replace(" ", ""), y.replace(" ", "")
    if nx != ny:
        n = next((i for i, (p, q) in enumerate(zip(nx, ny)) if p != q), min(len(nx), len(ny)))
        mon.fail("other-text", "other text changed: %r / %r" % (nx[max(0, n-40):n+40], ny[max(0, n-40):n+40]), **info)
    mon.ev("rest same")
    if COMMENT.search(text):
        mon.ev("comments kept")
    if s2.ambiguous | s2.fixrel:
        mon.ev("skipped: unclear result")
        return
    out2 = s2.out
    mon.check([k for k, m, p in out] == [k for k, m, p in out2], "other-sounds", "not the same kinds of pitches", **info)
    for (k, m, p), (k2, m2, p2) in zip(out, out2):
        mon.check(p == p2, "sound-changed", "%s at %d sounded %s, now %s" % (k, m.pos, p, p2), **info)
        mon.ev("same sounds")
        mon.check(not getattr(m2, "corrected", False) or getattr(m, "corrected", False), "check-fails",
            "octave check at %d fails after the conversion" % m2.pos, **info)
    return doc2, s2


def relatives(doc):
    return [m for m in doc.walk() if m.kind == "relative"]


def make(rng, mon):
    g = MusGen(rng, without=() if rng.random() < .3 else ("fixed",), extra=("tuning", "volta", "after", "octabs"))
    if rng.random() < .3:
        g.without |= {"relative"}
    text = g.document(rng.randint(1, 4), rng.randint(1, 3))
    fpa = rng.choice([None, None, True, False])
    if rng.random() < .6:
        text = add_checks(rng, text, fpa, rng.random() < .4, True)
    if rng.random() < .3:
        text = abs_checks(rng, text)
    doc = refly.parse(text, fpa)
    s = refly.Sound(doc, True)
    bad = s.ambiguous | s.fixrel
    if bad:
        for a in bad:
            mon.ev("skipped: " + a)
        return
    for m in doc.walk():
        if m.kind == "transpose": mon.ev("in transpose")
        elif m.kind == "relative":
            mon.ev("no start pitch" if m.start is None else "start pitch")
            if any(x.kind == "relative" for c in m.children for x in walk(c)): mon.ev("nested relative")
        elif m.kind == "chord": mon.ev("chord")
        elif m.kind == "score": mon.ev("markup score")
        elif m.kind == "mode" and m.mode == "chord": mon.ev("chord mode")
        elif m.kind == "note" and m.check is not None:
            mon.ev("failing octave check" if getattr(m, "corrected", False) else "octave check")
    if any(m.kind == "octavecheck" and id(m) not in s.relcheck for m in doc.walk()):
        mon.ev("octaveCheck in absolute music")
    if "\\language" in text.split("\n", 2)[-1]:
        mon.ev("language changed")
    return text, fpa, doc, s.out


def walk(m):
    yield m
    for c in m.children:
        yield from walk(c)


def case_whole(rng, mon):
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out = r
    what = rng.choice(["rel2abs", "abs2rel"])
    proc = PitchProcessor() if rng.random() < .2 else None
    d = Doc(text)
    opts = convert(what, rng, d, fpa, proc, rng.choice([d.tree, Range(d.tree)]))
    new = d.result()
    r = compare(mon, what, text, new, doc, out, fpa, **opts)
    if not r:
        return
    doc2, s2 = r
    info = dict(before=text, after=new, fpa=fpa, **opts)
    if what == "rel2abs":
        mon.check(not relatives(doc2), "relative-left", "\\relative is still there", **info)
        mon.check(not [m for m in doc2.walk() if m.kind == "octavecheck" and id(m) in s2.relcheck], "octavecheck-left", "\\octaveCheck is still there", **info)
        mon.ev("nothing relative left")
        if [m for m in doc.walk() if m.kind == "octavecheck"]:
            mon.ev("octaveCheck removed")
    else:
        mon.check(len(relatives(doc2)) >= len(relatives(doc)), "relative-lost", "\\relative disappeared", **info)
        if len(relatives(doc2)) > len(relatives(doc)):
            mon.ev("made relative")
        check_topmost(mon, doc, doc2, info, opts)
    mon.ev(what + " whole")
    if new != text:
        mon.nontrivial(text, what)
        mon.sample(dict(before=text, what=what, after=new))
    # the other way
    what2 = rng.choice(["rel2abs", "abs2rel"])
    d = Doc(new)
    opts = convert(what2, rng, d, fpa, None)
    back = d.result()
    compare(mon, what2, new, back, doc2, s2.out, fpa, first=what, **opts)
    mon.ev("round trip")


def check_topmost(mon, doc, doc2, info, opts):
    """Every topmost list with notes is relative, and has a start pitch or not as wanted."""
    old = len(relatives(doc))
    def visit(m, rel):
        k = m.kind
        rel = rel or k in ("relative", "mode", "fixed")
        if k in ("seq", "sim") and not rel and id(m) not in lists:
            mon.check(not any(c.kind == "note" and not getattr(c, "rootnote", False) for c in m.children), "not-relative",
                "a list with notes was not made relative", at=m.pos, **info)
        for c in m.children:
            visit(c, rel)
    # \alternative itself needs a list
    lists = {id(m.alternatives) for m in doc2.walk() if m.kind == "repeat" and m.alternatives is not None}
    for i in doc2.items:
        visit(i, False)
    if not old:
        for m in relatives(doc2):
            mon.check((m.start is not None) == opts["start_pitch"] or not has_notes(m), "start-pitch", "start pitch is not as requested", at=m.pos, **info)


BARRIER = (lily.Absolute, lily.Fixed, lily.Transpose, lily.MarkupScore)


def left_relative(tree, rg, start, end):
    """The number of \\relative expressions that may be left after making the selection absolute."""
    order = {id(n): k for k, n in enumerate(tree.descendants())}
    def last(n):
        while len(n):
            n = n[-1]
        return order[id(n)]
    rels = list(tree // lily.Relative)
    selected = [n for n in rels if n is not rg.ancestor() and order[id(start)] <= order[id(n)] and (n is end or last(n) <= order[id(end)])]
    def converted(n):
        passed, outside = False, False
        for a in n.ancestors():
            if a is rg.ancestor():
                outside = True
            if isinstance(a, lily.Relative):
                if any(a is x for x in selected):
                    return converted(a)
                if not outside or not passed:
                    return False
            elif isinstance(a, BARRIER):
                passed = True
        return True
    done = [n for n in selected if converted(n)]
    # also everything inside what is converted
    return len(rels) - sum(any(a is x for a in (n, *n.ancestors()) for x in done) for n in rels)


def has_notes(m):
    return any(x.kind in ("note",) for c in m.children for x in walk(c))


def case_selection(rng, mon):
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out = r
    d = Doc(text)
    nodes = [n for n in d.tree.descendants() if n.pos is not None]
    if len(nodes) < 2:
        return
    i = rng.randrange(len(nodes))
    start = nodes[i]
    if rng.random() < .4:
        # a music expression
        m = [n for n in nodes if isinstance(n, (lily.Relative, lily.MusicList, lily.Context, lily.Transpose))]
        if not m:
            return
        start = end = rng.choice(m)
        while len(end):
            end = end[-1]
    else:
        end = nodes[min(len(nodes) - 1, i + rng.choice([0, 1, 3, 10, 30, 100]))]
    rg = Range.from_nodes(start, end, rng.random() < .4)
    k = rng.random()
    if k < .1: rg = Range.from_nodes(start)
    elif k < .2: rg = Range.from_nodes(None, end)
    what = rng.choice(["rel2abs", "abs2rel"])
    left = left_relative(d.tree, rg, start, end)
    sel = (start.pos, end.pos, rg.ancestor() is d.tree)
    both = rg.start_node() is not None and rg.end_node() is not None
    opts = convert(what, rng, d, fpa, None, rg)
    new = d.result()
    r = compare(mon, what, text, new, doc, out, fpa, selection=sel, **opts)
    if r and both and what == "rel2abs":
        n = len(relatives(r[0]))
        mon.check(n == left, "selection-relative-left", "%d \\relative expressions are left, should be %d" % (n, left), before=text, after=new, selection=sel)
        mon.ev("left in selection" if left == len(relatives(doc)) else "selection made absolute")
    mon.ev(what + " selection")
    if new != text:
        mon.nontrivial(text, what, start.pos, end.pos)
        mon.sample(dict(before=text, what=what, after=new, selection=(start.pos, end.pos)))


def case_cursor(rng, mon):
    """A selection in a parce document, starting and ending at any character."""
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out = r
    k = rng.random()
    if k < .5:      # from or to the start or end of a word or brace
        spots = [x for m in re.finditer(r"\S+", text) for x in m.span()]
        lo, hi = rng.choice(spots), rng.choice(spots)
    else:
        lo, hi = rng.randrange(len(text) + 1), rng.randrange(len(text) + 1)
    lo, hi = min(lo, hi), max(lo, hi)
    if k > .8:
        hi = len(text)
    if lo == hi:
        return
    pdoc = parce.Document(lilypond.LilyPond.root, text, transformer=True)
    what = rng.choice(["rel2abs", "abs2rel"])
    opts = convert(what, rng, None, fpa, None, parce.Cursor(pdoc, lo, hi))
    new = pdoc.text()
    compare(mon, what, text, new, doc, out, fpa, selection=(lo, hi), **opts)
    mon.check(new.startswith(text[:lo].rstrip()) and new.endswith(text[hi:].lstrip()), "outside-changed",
              "text outside the selection changed", before=text, after=new, selection=(lo, hi), selected=text[lo:hi], what=what)
    mon.ev("outside selection in document unchanged")
    if new != text:
        mon.ev(what + " selection in document")
        mon.nontrivial("cursor", text, what, lo, hi)


def case_node(rng, mon):
    """One music list made relative, the resulting expression put in its place."""
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out = r
    d = Doc(text)
    lists = [n for n in d.tree // lily.MusicList if type(n) in (lily.MusicList, lily.SimultaneousMusicList)
             and not any(isinstance(a, BARRIER[:2] + (lily.Relative, lily.ChordMode)) for a in n.ancestors())
             and isinstance(n.parent, (lily.Document, lily.Score, lily.Context, lily.Assignment, lily.MusicList))
             and not any(n // (lily.Relative, lily.ChordMode))]
    if not lists:
        return
    n = rng.choice(lists)
    start = rng.random() < .5
    parent, i = n.parent, n.parent.index(n)
    proc = PitchProcessor() if rng.random() < .2 else None
    rel = Abs2rel(proc, start, fpa).make_relative(n)
    parent[i] = rel
    new = d.result()
    opts = dict(start_pitch=start)
    r = compare(mon, "abs2rel", text, new, doc, out, fpa, **opts)
    if not r:
        return
    doc2, s2 = r
    mon.check(len(relatives(doc2)) == len(relatives(doc)) + 1, "not-relative", "the list is not relative", before=text, after=new)
    mon.ev("a music list made relative")
    mon.nontrivial(text, "node")


STREAMS = {
    "node": Stream(case_node, 800, 20000),
    "whole": Stream(case_whole, 1800, 60000),
    "selection": Stream(case_selection, 1800, 60000),
    "cursor": Stream(case_cursor, 1500, 40000),
}
