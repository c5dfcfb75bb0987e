"""Helpers for the checks that change music (C14-C17, C22)."""
import contextlib
import io

import parce
from parce.transform import Transformer

from quickly.dom import lily
from quickly.lang import lilypond
from vt import refly
from vt.musgen import MusGen


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


class Doc:
    """A parce document and its tree."""
    def __init__(self, text):
        self.text = text
        self.doc = parce.Document(lilypond.LilyPond.root, text)
        self.tree = quiet(Transformer().transform_tree, self.doc.get_root(True))

    def result(self):
        """The text with the changes written back."""
        self.tree.edit(self.doc)
        return self.doc.text()


def clean(text, doc):
    """Text with pitches and checks replaced by a placeholder."""
    spans = [(a, b, "\0") for a, b, m in doc.pitchspans] + [(a, b, "=\0") for a, b in doc.checkspans]
    out, last = [], 0
    for a, b, by in sorted(spans):
        out += [text[last:a], by]
        last = b
    return "".join(out) + text[last:]


def insert(text, inserts):
    """Insert strings: a list of (pos, string)."""
    out, last = [], 0
    for pos, s in sorted(inserts, key=lambda x: x[0]):
        out += [text[last:pos], s]
        last = pos
    out.append(text[last:])
    return "".join(out)


def marks(n):
    return "'" * n if n > 0 else "," * -n


def add_checks(rng, text, fpa=None, fail=False, chord_relative=False):
    """Add octave checks to some notes in relative music."""
    doc = refly.parse(text, fpa)
    s = refly.Sound(doc, chord_relative)
    if s.ambiguous:
        return text
    rel = relative_notes(doc)
    ins = []
    for n in rel:
        if rng.random() < .12:
            o = n.abs[0] - refly.name_octave(n)
            if fail and rng.random() < .4:
                o += rng.choice([-1, 1, 2])
            ins.append((n.end_pitch, "=" + marks(o)))
    return insert(text, ins)


def abs_checks(rng, text):
    """Add some octave checks (without effect) in absolute music."""
    doc = refly.parse(text)
    refly.Sound(doc, True)
    spans = [m.end_pitch for m in doc.walk() if m.kind == "note" and m.check is None and getattr(m, "inrel", None) is False]
    return insert(text, [(p, "=" + marks(rng.choice([-1, 0, 0, 1, 2]))) for p in spans if rng.random() < .1])


def relative_notes(doc):
    r"""Notes directly in \relative."""
    out = []
    def walk(m, rel):
        k = m.kind
        if k == "relative": rel = True
        elif k in ("absolute", "fixed", "transpose", "score") or k == "mode" and m.mode == "chord": rel = False
        if k == "note" and rel and not getattr(m, "rootnote", False):
            out.append(m)
            rel = False
        for c in m.children:
            walk(c, rel)
    for i in doc.items:
        walk(i, False)
    return out


def compare_rest(mon, key, a, b, da, db, **info):
    """Everything but the pitches must be the same."""
    x, y = clean(a, da), clean(b, db)
    if x != y:
        n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        mon.fail(key, "other text changed: %r / %r" % (x[max(0, n-40):n+40], y[max(0, n-40):n+40]), before=a, after=b, **info)
    mon.ev("rest same")
