"""C12: key signatures, scales and MIDI keys in a key."""
from fractions import Fraction
from math import floor
import os

import parce

F = Fraction

from vt.core import Stream
from parce.lang.lilypond_words import pitch_names
from quickly import key, pitch
from quickly.dom import read, lily
from quickly.dom.scope import Scope
from quickly.lang.lilypond import LilyPond
from quickly.pitch import Pitch, PitchProcessor
from quickly.key import KeySignature, accidentals, alterations, chromatic_scale, mode_offset, tonic

PROPERTY = "C12"
RULE = ("Random tonics, named modes and composed modes: accidentals are compared with an independent semitone computation; "
        "all MIDI keys in a window are converted to pitches in the key and back (the notes outside of the scale as in the chromatic scale on the tonic; also with quarter tones); the circle of fifths is walked. "
        "Non-trivial: tonic with an alteration, or mode other than major; distinct by (tonic, mode, flats).")
NEED = ("document key", "key with mode", "key with alterations", "key with variable", "definitions in files", "unknown mode", "other scale", "accidentals", "midi key", "diatonic", "chromatic", "tonic", "alterations", "quarter tone")

SEMI = (0, 2, 4, 5, 7, 9, 11)
# semitone distances of the standard modes, written out
MODES = {
    "major": (0, 2, 4, 5, 7, 9, 11), "ionian": (0, 2, 4, 5, 7, 9, 11), "dorian": (0, 2, 3, 5, 7, 9, 10),
    "phrygian": (0, 1, 3, 5, 7, 8, 10), "lydian": (0, 2, 4, 6, 7, 9, 11), "mixolydian": (0, 2, 4, 5, 7, 9, 10),
    "minor": (0, 2, 3, 5, 7, 8, 10), "aeolian": (0, 2, 3, 5, 7, 8, 10), "locrian": (0, 1, 3, 5, 6, 8, 10),
}


def expect(note, alter, steps):
    """Alterations for notes 0..6 of the scale on the tonic with the semitone steps."""
    res = [None] * 7
    base = SEMI[note] + 2 * alter
    for i in range(7):
        n = (note + i) % 7
        octave = (note + i) // 7
        res[n] = Fraction(base + steps[i] - SEMI[n] - 12 * octave) / 2
    return res


MAJOR_FLATS = (1.5, 5)


def chromatic(note, alter, m, flats):
    """The (note, alter) for a MIDI key that is not in the scale: the interval from the tonic as it is written in C."""
    base = SEMI[note] + 2 * Fraction(alter)
    r = (m - floor(base)) % 12
    if r in SEMI:
        step = SEMI.index(r)
    elif r / 2 in flats:
        step = next(i for i, s in enumerate(SEMI) if s == r + 1)
    else:
        step = next(i for i, s in enumerate(SEMI) if s == r - 1)
    n = (note + step) % 7
    return n, (base + r - SEMI[n] - 12 * ((note + step) // 7)) / 2


def case_key(rng, mon):
    note = rng.randrange(7)
    alter = rng.choice((0, 0, .5, -.5, 1, -1, Fraction(1, 2), Fraction(-1, 2)))
    if rng.random() < .1:
        alter = rng.choice((.25, -.25, .75, -.75, Fraction(1, 4), Fraction(-3, 4)))
    if rng.random() < .75:
        mode = rng.choice(sorted(MODES))
        steps = MODES[mode]
        kmode = mode
    else:
        mode = [rng.choice((0, 0, .5, -.5)) for _ in range(7)]
        if rng.random() < .3:
            mode = [rng.choice((a, a, a, .25, -.25, .75, -.75)) for a in mode]
        mode[0] = 0 if rng.random() < .8 else .5
        steps = [s + 2 * m for s, m in zip(SEMI, mode)]
        kmode = tuple(mode)
    k = KeySignature(note, alter) if mode == "major" and rng.random() < .3 else KeySignature(note, alter, mode)
    want = expect(note, alter, steps)
    ctx = dict(note=note, alter=alter, mode=kmode)
    mon.check([Fraction(a) for a in k.accidentals] == want, "accidentals", "accidentals %r, should be %r" % (k.accidentals, want), **ctx)
    mlist = alterations(mode_offset[mode]) if isinstance(mode, str) else mode
    acc = accidentals(note, alter, mlist)
    mon.check([Fraction(a) for a in acc] == want, "accidentals", "accidentals() %r, should be %r" % (acc, want), **ctx)
    mon.ev("accidentals")
    mon.check((k.note, k.alter, k.mode) == (note, alter, mode), "attributes", "attributes changed", **ctx)
    repr(k)
    # all midi keys
    flats = rng.choice((None, None, (.5, 1.5, 3, 4, 5), (1.5,), (), [1.5, 4, 5], "attr"))
    args = (flats,) if flats not in (None, "attr") else ()
    if flats == "attr":
        k.flats = (.5, 1.5, 3, 4, 5)
    diatonic = {}
    for n, a in enumerate(want):
        diatonic.setdefault(floor(SEMI[n] + 2 * a) % 12, []).append((n, a))
    seen = set()
    base = rng.randint(0, 60)
    for m in range(base, base + 24):
        p = k.pitch(m, *args)
        mon.check(type(p) is Pitch, "type", "no Pitch returned")
        got = (p.octave + 5) * 12 + SEMI[p.note] + 2 * p.alter
        mon.check(floor(got) == m, "midi", "MIDI key %d is written as %r (key %r)" % (m, p, got), flats=flats, **ctx)
        mon.check(p.to_midi() == m, "midi", "MIDI key %d is written as %r, which has key %r" % (m, p, p.to_midi()), flats=flats, **ctx)
        mon.ev("midi key")
        if got != m:
            mon.ev("quarter tone")
        if m % 12 in diatonic:
            mon.check((p.note, Fraction(p.alter)) in diatonic[m % 12], "diatonic", "MIDI key %d is in the scale, but written as %r" % (m, p), flats=flats, **ctx)
            mon.ev("diatonic")
        else:
            want_p = chromatic(note, alter, m, MAJOR_FLATS if flats is None else (.5, 1.5, 3, 4, 5) if flats == "attr" else flats)
            mon.check((p.note, Fraction(p.alter)) == want_p, "chromatic", "MIDI key %d is written as %r, should be %r" % (m, p, want_p), flats=flats, **ctx)
            mon.ev("chromatic")
        q = k.pitch(m, *args)
        mon.check(q == p and q is not p, "stable", "a second conversion is different or shared")
    if alter or mode != "major":
        mon.nontrivial(note, float(alter), kmode, str(flats))
    mon.sample(dict(ctx, accidentals=[float(x) for x in want]))


def case_scale(rng, mon):
    # circle of fifths
    sf = rng.randint(-14, 14) if rng.random() < .8 else rng.randint(-40, 40)
    note, alter = tonic(sf)
    acc = accidentals(note, alter)
    mon.check(sum(acc) * 2 == sf, "tonic", "tonic(%d) is %r with accidentals %r" % (sf, (note, alter), acc))
    mon.ev("tonic")
    # the order in which sharps or flats appear
    f = [3, 0, 4, 1, 5, 2, 6]
    want = [0] * 7
    for i in range(abs(sf)):
        want[(f if sf > 0 else f[::-1])[i % 7]] += .5 if sf > 0 else -.5
    mon.check(acc == want, "tonic", "tonic(%d) has accidentals %r, should be %r" % (sf, acc, want))
    # alterations for an offset
    off = rng.randint(-14, 14)
    o = off % 7
    want = [Fraction((SEMI[(i + o) % 7] + 12 * ((i + o) // 7) - SEMI[o]) - SEMI[i]) / 2 for i in range(7)]
    mon.check([Fraction(a) for a in alterations(off)] == want, "alterations", "alterations(%d) is %r" % (off, alterations(off)))
    mon.ev("alterations")
    # chromatic scale: twelve different pitches, from c
    note, alter = rng.randrange(7), rng.choice((0, .5, -.5, 1, -1, .25, -.25, .75, -.75))
    flats = rng.choice((None, (), (.5, 1.5, 3, 4, 5)))
    cs = list(chromatic_scale(note, alter, None, flats))
    mon.check(len(cs) == 12, "chromatic", "length %d" % len(cs))
    got = [floor(SEMI[n] + 2 * a) % 12 for n, a in cs]
    mon.check(got == list(range(12)), "chromatic", "chromatic_scale(%r, %r) has pitches %r" % (note, alter, got))
    mon.check((note, alter) in cs, "chromatic", "the tonic is not in the chromatic scale")
    major = expect(note, alter, SEMI)
    mon.check(all((n, a) in [(x, Fraction(y)) for x, y in cs] for n, a in enumerate(major)), "chromatic", "major scale is not in the chromatic scale")
    mon.nontrivial(sf, off, note, alter, str(flats))


# alterations in whole tones: LilyPond's names
ALTERS = {"DOUBLE-FLAT": F(-1), "THREE-Q-FLAT": F(-3, 4), "FLAT": F(-1, 2), "SEMI-FLAT": F(-1, 4), "NATURAL": F(0), "SEMI-SHARP": F(1, 4),
          "SHARP": F(1, 2), "THREE-Q-SHARP": F(3, 4), "DOUBLE-SHARP": F(1)}
NAMES = {k: v for k, v in pitch_names.items() if k in ("nederlands", "english", "deutsch", "italiano", "svenska", "suomi", "vlaams", "norsk", "portugues")}


def scheme_mode(rng):
    """A mode written in Scheme: (text, list of 7 alterations)."""
    alts = [F(0)] * 7
    if rng.random() < .25:
        alts = [rng.choice((F(0), F(0), F(-1, 2), F(1, 2), F(1))) for i in range(7)]
        return "#'(" + " ".join(str(a) for a in alts) + ")", alts
    items, quoted = [], rng.choice("'`")
    steps = rng.sample(range(7), rng.randint(1, 7))
    if rng.random() < .6:
        steps.sort()
    for s in steps:
        if quoted == "`" and rng.random() < .7:
            n = rng.choice(sorted(ALTERS))
            alts[s] = ALTERS[n]
            t = "," + n
        else:
            a = rng.choice((F(0), F(-1, 2), F(1, 2), F(-1, 4), F(3, 4), F(1), F(-1)))
            alts[s] = a
            t = rng.choice((str(a), str(a), repr(float(a)) if a else "0"))
        items.append("(%d . %s)" % (s, t))
    return "#" + quoted + "(" + rng.choice((" ", "  ", "\n")).join(items) + ")", alts


def case_document(rng, mon):
    r"""\key commands in documents."""
    lang = rng.choice(sorted(NAMES))
    parts = []
    if lang != "nederlands" or rng.random() < .3:
        parts.append('\\language "%s"' % lang)
    vs = {}     # variables
    for name in rng.sample(("mymode", "modeA", "freygish", "other", "zz"), rng.randint(0, 4)):
        k = rng.random()
        if k < .3:
            m = rng.choice(sorted(MODES)); vs[name] = m
            parts.append("%s = \\%s" % (name, m))
        elif k < .7:
            t, a = scheme_mode(rng); vs[name] = a
            parts.append("%s = %s" % (name, t))
        elif k < .85 and vs:
            o = rng.choice(sorted(vs)); vs[name] = vs[o]
            parts.append("%s = \\%s" % (name, o))
        else:
            parts.append("%s = \\missing" % name); vs[name] = None
    want = []
    music = []
    for i in range(rng.randint(1, 5)):
        name = rng.choice(sorted(NAMES[lang]))
        _, note, alter = NAMES[lang][name]
        octv = rng.choice(("", "", "'", ",", "''"))
        k = rng.random()
        if k < .35:
            mode = rng.choice(sorted(MODES)); text = "\\" + mode
        elif k < .6 and vs:
            v = rng.choice(sorted(vs)); mode = vs[v]; text = "\\" + v
        elif k < .7:
            mode = None; text = rng.choice(("\\undef", "#foo", "\\missing"))
        else:
            text, mode = scheme_mode(rng)
        if mode is not None and i == 0:
            mon.ev("key with " + ("mode" if isinstance(mode, str) else "alterations"))
        if text[1:] in vs:
            mon.ev("key with variable")
        cm = rng.choice(("", "", " %{ c %}", " % c\n"))
        music.append("\\key %s%s%s %s" % (name, octv, cm, text))
        want.append((note, F(alter), mode))
    nest = rng.choice(("{ %s }", "\\relative { %s }", "<< { %s } >>", "\\new Staff { %s }", "\\score { { %s } }", "mus = { %s }"))
    scope = None
    files = {}
    if vs and rng.random() < .4:
        # some of the definitions in included documents, that include each other
        first = 1 if parts[0].startswith("\\language") else 0
        name = "main.ly"
        lines = parts
        while True:
            a, b = sorted((rng.randint(first, len(lines)), rng.randint(first, len(lines))))
            sub = lines[a:b]
            other = "%s%d.ly" % (rng.choice(("defs", "a/modes", "b")), len(files))
            files[name] = lines[:a] + (['\\include "%s"' % other] if sub else []) + lines[b:]
            if not sub:
                break
            name, lines, first = other, sub, 0
            if len(files) > 3 or rng.random() < .4:
                files[name] = lines
                break
        parts = files.pop("main.ly")
        main = "\n".join(parts) + "\n" + nest % " ".join(music)
        docs = {}
        def factory(filename):
            f = os.path.relpath(filename, "/nowhere")
            if f not in files:
                raise OSError(filename)
            if f not in docs:
                docs[f] = parce.Document(LilyPond.root, "\n".join(files[f]) + "\n", url=filename, transformer=True)
            return docs[f]
        d = parce.Document(LilyPond.root, main, url="/nowhere/main.ly", transformer=True)
        scope = Scope(d, factory=factory)
        if files:
            mon.ev("definitions in files")
            mon.ev("definitions in %d files" % len(files))
    text = "\n".join(parts) + "\n" + nest % " ".join(music)
    if scope:
        doc = d.get_transform(True)
        mon.check(doc.write().split() == read.lily_document(text).write().split(), "harness", "other text", text=text)
    else:
        doc = read.lily_document(text)
    keys = list(doc // lily.Key)
    ctx = dict(text=text, files=files)
    mon.check(len(keys) == len(want), "read", "found %d \\key commands of %d" % (len(keys), len(want)), **ctx)
    for k, (note, alter, mode) in zip(keys, want):
        p = PitchProcessor()
        p.find_language(k)
        sig = k.key_signature(p, scope) if scope else k.key_signature(p)
        if mode is None:
            mon.check(sig is None, "unknown mode", "%r instead of no key signature" % (sig,), **ctx)
            mon.ev("unknown mode")
            continue
        mon.check(sig is not None, "no signature", "no key signature for %s" % k.write(), **ctx)
        steps = MODES[mode] if isinstance(mode, str) else [s + 2 * m for s, m in zip(SEMI, mode)]
        acc = expect(note, alter, steps)
        mon.check((sig.note, F(sig.alter)) == (note, alter), "tonic", "tonic %r is read as %r" % ((note, alter), (sig.note, sig.alter)), **ctx)
        mon.check([F(a) for a in sig.accidentals] == acc, "accidentals", "%s has accidentals %r, should be %r" % (k.write(), sig.accidentals, acc), **ctx)
        mon.ev("document key")
        mon.nontrivial("doc", note, str(alter), str(mode))
    mon.sample(ctx)


def case_custom(rng, mon):
    """Key signatures based on another scale."""
    semis = [F(0)]
    for i in range(6):
        semis.append(semis[-1] + rng.choice((F(1), F(2), F(2), F(3, 2))))
    if semis[-1] >= 12:
        return
    scale = tuple(s / 2 for s in semis)
    if rng.random() < .3:
        scale = pitch.MAJOR_SCALE
        semis = [F(s) for s in SEMI]
    note, alter = rng.randrange(7), rng.choice((F(0), F(1, 2), F(-1, 2)))
    mode = rng.choice(sorted(MODES))
    off = ("ionian", "dorian", "phrygian", "lydian", "mixolydian", "aeolian", "locrian").index({"major": "ionian", "minor": "aeolian"}.get(mode, mode))
    # the scale as it is, started at the degree of the mode, moved to the tonic
    steps = [semis[(off + i) % 7] + 12 * ((off + i) // 7) - semis[off] for i in range(7)]
    want = [None] * 7
    for i in range(7):
        n = (note + i) % 7
        want[n] = (semis[note] + 2 * alter + steps[i] - semis[n] - 12 * ((note + i) // 7)) / 2
    k = KeySignature(note, alter, mode, scale)
    mon.check([F(a) for a in k.accidentals] == want, "scale", "accidentals %r, should be %r" % (k.accidentals, want), note=note, alter=alter, mode=mode, scale=scale)
    mon.ev("other scale")
    mon.nontrivial("scale", note, str(alter), mode, str(scale))


STREAMS = {
    "document": Stream(case_document, 2500, 60000),
    "custom": Stream(case_custom, 1000, 20000),
    "key": Stream(case_key, 1500, 60000),
    "scale": Stream(case_scale, 1500, 60000),
}
