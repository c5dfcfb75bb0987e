r"""C14: transposing."""
from fractions import Fraction

import parce
from parce.lang.lilypond_words import pitch_names

from vt import refly, musgen
from vt.core import Stream
from vt.musgen import MusGen
from vt.muscheck import Doc, add_checks, compare_rest, quiet
from vt.util import sig
from quickly.dom import lily
from quickly.lang import lilypond
from quickly.node import Range
from quickly.pitch import Pitch, PitchProcessor
from quickly.transpose import Transposer, Transpose, transpose

PROPERTY = "C14"
RULE = ("Generated documents (absolute, \\relative with and without start pitch, \\fixed, nested \\transpose, chords, keys, chord "
        "mode with inversions, octave checks, variables, repeats, markup scores, language changes, comments) are transposed "
        "with a random interval, as a whole or a random selection. An independent LilyPond evaluator computes the sounding "
        "pitches from the text before and after: each one must have moved by exactly the interval, with the exact note name "
        "unless more than a double alteration would be needed; all text that is not a pitch must be the same, and so must "
        "all pitches outside the selection. Transposing back restores. Sums and differences of transposers are compared "
        "with interval arithmetic. Non-trivial: at least three pitches that moved; distinct by text.")
ASSUMPTIONS = ["text whose meaning depends on the reading of the LilyPond manual is left out: chord mode inside \\relative or "
               "\\fixed",
               "a selection does not separate the two pitches of a \\transpose command",
               "notes that follow a selection in the same \\relative are only checked to keep their text"]
NEED = ("whole", "selection", "restored", "interval arithmetic", "rest same", "note moved", "key moved", "inversion moved", "root moved",
        "respelled", "in relative", "in fixed", "in transpose", "octave check", "failing octave check", "outside unchanged",
        "ancestor not root", "end in note", "language changed", "outside selection in document unchanged", "selection starts in pitch", "moved in document")

COMPLETE = [l for l in musgen.QUARTER
            if {(v[1], v[2]) for v in pitch_names[l].values()} >= {(n, a / 4) for n in range(7) for a in range(-4, 5)}]


def number(rng, x):
    """The alteration as int, float or Fraction."""
    return rng.choice([Fraction(x).limit_denominator(8), float(x), int(x) if int(x) == x else float(x)])


def interval(rng, quarter=False):
    alters = (-.5, 0, 0, 0, .5) if rng.random() < .8 else (-1, -.5, 0, .5, 1)
    if quarter and rng.random() < .5:
        alters = (-.75, -.25, 0, .25, .75)
    k = rng.random()
    o = rng.choice([-2, -1, 0, 0, 1, 2]) if k < .5 else 0
    a = (0 if k < .7 else rng.choice([-1, 0, 1]), rng.randrange(7), rng.choice(alters))
    b = (a[0] + o, rng.randrange(7), rng.choice(alters))
    f = lambda p: (p[0], p[1], Fraction(p[2]).limit_denominator(8))
    a, b = f(a), f(b)
    return a, b, refly.interval(a, b)


def P(rng, p):
    return Pitch(p[0], p[1], number(rng, p[2]))


def names_ok(a, b):
    return b[1:] == a[1:]


def expect(mon, k, m, p, m2, p2, iv, **info):
    """Pitch p of m must have moved to p2 of m2."""
    e = refly.shift(p, iv)
    same = refly.semitones(p2) == refly.semitones(e)
    if k in ("key", "inversion"):
        same = (refly.semitones(p2) - refly.semitones(e)) % 12 == 0
    mon.check(same, "wrong-" + k, "%s %r sounds %s, expected %s" % (k, m2, p2, e), interval=iv, at=m.pos, **info)
    w = refly.names_pitch(m.pitch if k == "key" else m)
    w2 = refly.names_pitch(m2.pitch if k == "key" else m2)
    x = refly.shift(w, iv)
    if abs(x[2]) <= 1:
        mon.check(x[1:] == w2[1:], "wrong-name-" + k, "%s is named %s, expected %s" % (k, w2, x), interval=iv, at=m.pos, **info)
    else:
        mon.ev("respelled")
        mon.check(abs(w2[2]) <= 1, "not-respelled", "%s is named %s" % (k, w2), interval=iv, at=m.pos, **info)
    mon.ev(k + " moved")


def make(rng, mon):
    """Return text, first_pitch_absolute and a parsed doc, or None."""
    quarter = rng.random() < .12
    g = MusGen(rng, lang=rng.choice(COMPLETE) if quarter else None, quarter=quarter, without=("language",) if quarter else (), extra=("tuning", "volta", "after", "octabs"))
    if rng.random() < .7:
        # leads mostly to unclear input
        g.without |= {"chordmode"} if rng.random() < .7 else {"relative", "fixed"}
    text = g.document(rng.randint(1, 4), rng.randint(1, 3))
    fpa = rng.choice([None, None, True, False])
    if rng.random() < .6:
        text = add_checks(rng, text, fpa, rng.random() < .4, True)
    doc = refly.parse(text, fpa)
    s = refly.Sound(doc, True)
    if s.ambiguous:
        for a in s.ambiguous:
            mon.ev("skipped: " + a)
        return
    for m in doc.walk():
        if m.kind in ("relative", "fixed", "transpose"):
            mon.ev("in " + m.kind)
    if doc.checkspans:
        mon.ev("octave check", len(doc.checkspans))
    for m in doc.walk():
        if m.kind == "note" and m.check is not None and getattr(m, "corrected", False):
            mon.ev("failing octave check")
    if "\\language" in text.split("\n", 2)[-1]:
        mon.ev("language changed")
    return text, fpa, doc, s.out, quarter


def case_whole(rng, mon):
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out, quarter = r
    a, b, iv = interval(rng, quarter)
    t = Transposer(P(rng, a), P(rng, b))
    d = Doc(text)
    if fpa is None and rng.random() < .3:
        quiet(transpose, d.tree, t)
    else:
        quiet(Transpose(t, rng.choice([None, PitchProcessor()]), fpa).edit, rng.choice([d.tree, Range(d.tree)]))
    new = d.result()
    info = dict(before=text, after=new, fpa=fpa)
    doc2 = refly.parse(new, fpa)
    out2 = refly.sounds(doc2, chord_relative=True)
    compare_rest(mon, "other-text", text, new, doc, doc2, interval=iv, fpa=fpa)
    mon.check([k for k, m, p in out] == [k for k, m, p in out2], "other-sounds", "not the same kinds of pitches", **info)
    exact = True
    for (k, m, p), (k, m2, p2) in zip(out, out2):
        if k == "transposition":
            mon.check(p == p2, "transposition-changed", "\\transposition was changed", **info)
            continue
        expect(mon, k, m, p, m2, p2, iv, **info)
        w = refly.names_pitch(m.pitch if k == "key" else m)
        exact = exact and abs(refly.shift(w, iv)[2]) <= 1
    for (s, e, m) in doc.pitchspans:
        exact = exact and abs(refly.shift(refly.names_pitch(m), iv)[2]) <= 1
    for (s, e, m), (s2, e2, m2) in zip(doc.pitchspans, doc2.pitchspans):
        mon.check((m.check is None) == (m2.check is None), "check-lost", "octave check appeared or disappeared", **info)
        if m2.check is not None and hasattr(m2, "abs"):
            mon.check(not getattr(m2, "corrected", False), "check-fails", "octave check fails after transposing", at=s2, **info)
    mon.ev("whole")
    if len(out) > 2 and iv != (0, 0):
        mon.nontrivial(text, iv)
    mon.sample(dict(before=text, interval=iv, after=new))
    # and back
    d = Doc(new)
    quiet(Transpose(Transposer(P(rng, b), P(rng, a)), None, fpa).edit, d.tree)
    back = d.result()
    doc3 = refly.parse(back, fpa)
    out3 = refly.sounds(doc3, chord_relative=True)
    compare_rest(mon, "other-text", text, back, doc, doc3, interval=iv, fpa=fpa)
    for (k, m, p), (k3, m3, p3) in zip(out, out3):
        if exact:
            mon.check(p == p3, "not-restored", "%s %s was %s" % (k, p3, p), text=text, there=new, back=back, interval=iv, fpa=fpa)
        else:
            x = refly.semitones(p) - refly.semitones(p3)
            mon.check(x == 0 or x % 12 == 0 and k in ("key", "inversion"), "not-restored",
                "%s %s was %s" % (k, p3, p), text=text, there=new, back=back, interval=iv, fpa=fpa)
    mon.ev("restored")


def case_selection(rng, mon):
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out, quarter = r
    n = len(doc.pitchspans)
    if n < 2:
        return
    a, b, iv = interval(rng, quarter)
    i = rng.randrange(n)
    j = rng.randrange(i, n) if rng.random() < .5 else min(n - 1, i + rng.randrange(5))
    lo, hi = doc.pitchspans[i][0], doc.pitchspans[j][0]
    for m in doc.walk():
        if m.kind == "transpose" and (lo <= m.a.pos <= hi) != (lo <= m.b.pos <= hi):
            mon.ev("skipped: half transpose")
            return
    d = Doc(text)
    nodes = {x.pos: x for x in d.tree // lily.Pitchable}
    start, end = nodes[lo], nodes[hi]
    partial = set()     # notes with the end inside, these are only partially selected
    last = end
    if rng.random() < .4:
        while len(last):
            last = last[-1]     # like a selection in a document
        hi = max([hi] + [x.pos for x in end // lily.Pitchable])
        mon.ev("end in note")
    else:
        partial = {x.pos for x in end // lily.Pitchable}
        if start is end and len(end):
            return
    partial |= {x.pos for x in end.ancestors() if isinstance(x, lily.Pitchable) and x.pos is not None} \
        | {x[0].pos for x in end.ancestors() if isinstance(x, lily.Pitchable) and x.pos is None}
    end = last
    rg = Range.from_nodes(start, end, rng.random() < .4)
    if rg.ancestor() is not d.tree:
        mon.ev("ancestor not root")
    # start note without end etc.
    k = rng.random()
    if k < .1:
        rg, hi = Range.from_nodes(start), len(text)
    elif k < .2:
        rg, lo = Range.from_nodes(None, end), 0
    for m in doc.walk():
        if m.kind == "transpose" and (lo <= m.a.pos <= hi) != (lo <= m.b.pos <= hi):
            return
    quiet(Transpose(Transposer(P(rng, a), P(rng, b)), None, fpa).edit, rg)
    new = d.result()
    info = dict(before=text, after=new, fpa=fpa, first=text[lo:lo + 10], last=text[hi:hi + 10], selection=(lo, hi))
    doc2 = refly.parse(new, fpa)
    out2 = refly.sounds(doc2, chord_relative=True)
    compare_rest(mon, "other-text", text, new, doc, doc2, interval=iv, selection=(lo, hi))
    for (s, e, m), (s2, e2, m2) in zip(doc.pitchspans, doc2.pitchspans):
        if not lo <= s <= hi:
            mon.check((m.name, m.marks, m.check) == (m2.name, m2.marks, m2.check), "outside-changed",
                "pitch outside the selection changed: %s at %d" % (text[s:e], s), interval=iv, **info)
            mon.ev("outside unchanged")
    moved = 0
    for (k, m, p), (k2, m2, p2) in zip(out, out2):
        s = m.pitch.pos if k == "key" else m.pos
        if lo <= s <= hi and s not in partial and k != "transposition":
            expect(mon, k, m, p, m2, p2, iv, **info)
            moved += 1
    mon.ev("selection")
    if moved > 1 and iv != (0, 0):
        mon.nontrivial(text, iv, lo, hi)
    mon.sample(dict(info, interval=iv))


def case_cursor(rng, mon):
    """A selection in a parce document, starting and ending at any character."""
    r = make(rng, mon)
    if not r:
        return
    text, fpa, doc, out, quarter = r
    if not doc.pitchspans:
        return
    a, b, iv = interval(rng, quarter)
    k = rng.random()
    if k < .5:      # somewhere in or near a pitch
        lo, hi = (rng.randint(*rng.choice(doc.pitchspans)[:2]) for _ in "ab")
    else:
        lo, hi = rng.randrange(len(text) + 1), rng.randrange(len(text) + 1)
    lo, hi = min(lo, hi), max(lo, hi)
    if k > .8:
        hi = len(text)
    if lo == hi:
        return
    for m in doc.walk():
        if m.kind == "transpose" and (lo <= m.a.pos < hi) != (lo <= m.b.pos < hi):
            mon.ev("skipped: half transpose")
            return
    pdoc = parce.Document(lilypond.LilyPond.root, text, transformer=True)
    ends = {}
    tree = Doc(text)
    for x in tree.tree // lily.Pitchable:
        ends[x.pos if x.pos is not None else x[0].pos] = x.end
    quiet(Transpose(Transposer(P(rng, a), P(rng, b)), None, fpa).edit_cursor, parce.Cursor(pdoc, lo, hi))
    new = pdoc.text()
    info = dict(before=text, after=new, fpa=fpa, selected=text[lo:hi], selection=(lo, hi))
    doc2 = refly.parse(new, fpa)
    out2 = refly.sounds(doc2, chord_relative=True)
    compare_rest(mon, "other-text", text, new, doc, doc2, interval=iv, selection=(lo, hi))
    for (s, e, m), (s2, e2, m2) in zip(doc.pitchspans, doc2.pitchspans):
        if e <= lo or s < lo or s >= hi:
            mon.check((m.name, m.marks, m.check) == (m2.name, m2.marks, m2.check), "outside-changed",
                "pitch outside the selection changed: %s at %d" % (text[s:e], s), interval=iv, **info)
            mon.ev("outside selection in document unchanged")
            if s < lo < e:
                mon.ev("selection starts in pitch")
    moved = 0
    for (k, m, p), (k2, m2, p2) in zip(out, out2):
        s = m.pitch.pos if k == "key" else m.pos
        if lo <= s and ends.get(s, len(text)) <= hi and k != "transposition":
            expect(mon, k, m, p, m2, p2, iv, **info)
            moved += 1
            mon.ev("moved in document")
    if moved > 1 and iv != (0, 0):
        mon.nontrivial("cursor", text, iv, lo, hi)


def case_arithmetic(rng, mon):
    """Transposers on their own."""
    for _ in range(20):
        a, b, iv = interval(rng)
        c, d, iv2 = interval(rng)
        t, u = Transposer(P(rng, a), P(rng, b)), Transposer(P(rng, c), P(rng, d))
        for x, want in ((t, iv), (u, iv2), (t + u, (iv[0] + iv2[0], iv[1] + iv2[1])), (t - u, (iv[0] - iv2[0], iv[1] - iv2[1])),
                        (t + u - u, iv), (t - u + u, iv), (t + t - u, (2 * iv[0] - iv2[0], 2 * iv[1] - iv2[1]))):
            p = (rng.randint(-3, 3), rng.randrange(7), Fraction(rng.choice([-1, -.5, 0, 0, .5, 1])).limit_denominator(8))
            q = P(rng, p)
            x.transpose(q)
            got = (q.octave, q.note, Fraction(q.alter).limit_denominator(64))
            e = refly.shift(p, want)
            mon.check(refly.semitones(got) == refly.semitones(e), "interval-arithmetic", "%r moved %s to %s, expected %s" % (x, p, got, e))
            mon.check(abs(got[2]) <= 1 and (abs(e[2]) > 1 or got == e), "interval-name", "%r moved %s to %s, expected %s" % (x, p, got, e))
            mon.ev("interval arithmetic")
        mon.nontrivial(a, b, c, d)


STREAMS = {
    "whole": Stream(case_whole, 1500, 40000),
    "selection": Stream(case_selection, 1800, 50000),
    "cursor": Stream(case_cursor, 1200, 30000),
    "arithmetic": Stream(case_arithmetic, 300, 5000),
}
