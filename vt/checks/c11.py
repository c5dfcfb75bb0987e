"""C11: pitch arithmetic: MIDI numbers, absolute and relative octaves, ordering."""
from fractions import Fraction
from math import floor

from vt.core import Stream
from quickly.pitch import Pitch

PROPERTY = "C11"
RULE = ("Random sequences of pitches are made relative and absolute note by note, and compared with a search for the "
        "nearest octave; MIDI keys over the full range and beyond are converted both ways with random lists of flats; "
        "comparison operators are compared with tuples. Non-trivial: pitch sequences with octave jumps or alterations; "
        "distinct by sequence.")
NEED = ("other scale", "relative in other scale", "absolute", "relative", "midi", "order")

SEMI = (0, 2, 4, 5, 7, 9, 11)


def rand_pitch(rng):
    return Pitch(rng.randint(-6, 6), rng.randrange(7), rng.choice((0, 0, 0, .5, -.5, 1, -1, Fraction(1, 2), Fraction(-1, 2), .25, -.75)))


def t(p):
    return (p.octave, p.note, p.alter)


def nearest(prev, note):
    """The octave in which note is at most a fourth from prev, counting steps."""
    return next(o for o in range(-40, 41) if abs((o * 7 + note) - (prev.octave * 7 + prev.note)) <= 3)


def case_relative(rng, mon):
    prev = rand_pitch(rng)
    seq = [rand_pitch(rng) for _ in range(rng.randint(2, 12))]
    default = rng.choice((-1, -1, 0, 3))
    marks = []
    p = prev
    for x in seq:
        r = x.copy()
        args = () if default == -1 and rng.random() < .5 else (default,)
        mon.check(r.make_relative(p, *args) is None, "return", "returns something")
        # the number of octave marks that is needed from the nearest octave
        want = x.octave - nearest(p, x.note) + default
        mon.check(t(r) == (want, x.note, x.alter), "relative", "%r relative to %r is %r, octave should be %d" % (t(x), t(p), t(r), want), default=default)
        mon.ev("relative")
        marks.append(r.octave - default)
        a = r.copy()
        a.make_absolute(p, *args)
        mon.check(t(a) == t(x), "inverse", "%r made relative and absolute again is %r" % (t(x), t(a)))
        b = x.copy()
        b.make_absolute(p, default)
        mon.check(b.octave == nearest(p, x.note) + x.octave - default, "absolute", "octave %d" % b.octave)
        mon.ev("absolute")
        mon.check(t(p) == t(prev if p is prev else p), "modified", "previous pitch is modified")
        p = x
    if any(marks) and any(x.alter for x in seq):
        mon.nontrivial(t(prev), tuple(map(t, seq)))
    mon.sample([t(x) for x in seq])


def case_other_scale(rng, mon):
    """Scales with another number of steps; the rules that hold for every length."""
    n = rng.choice((1, 2, 3, 5, 6, 6, 7, 8, 8, 9, 10, 12, 12))
    scale = tuple(sorted(rng.sample([Fraction(i, 2) for i in range(12)], n)))
    rand = lambda: Pitch(rng.randint(-6, 6), rng.randrange(n), rng.choice((0, 0, .5, -.5, 1)))
    step = lambda p: p.octave * n + p.note
    p = rand()
    seq = []
    for _ in range(rng.randint(2, 8)):
        default = rng.choice((-1, -1, 0, 2))
        x = rand()
        info = dict(prev=t(p), pitch=t(x), scale=scale, default=default)
        r = x.copy()
        r.make_relative(p, default, scale)
        a = r.copy()
        a.make_absolute(p, default, scale)
        mon.check(t(a) == t(x), "inverse-scale", "made relative and absolute again is %r" % (t(a),), **info)
        mon.check((r.note, r.alter) == (x.note, x.alter), "relative-scale", "changes the note", **info)
        # no octave marks: less than an octave away, in both directions
        b = Pitch(default, x.note, x.alter)
        b.make_absolute(p, default, scale)
        mon.check(abs(step(b) - step(p)) < max(n, 4), "near-scale", "%r is not near" % (t(b),), **info)
        if n == 7:
            mon.check(b.octave == nearest(p, x.note), "nearest-scale", "%r is not nearest" % (t(b),), **info)
        # every octave mark is an octave
        m = rng.randint(-4, 4)
        c = Pitch(default + m, x.note, x.alter)
        c.make_absolute(p, default, scale)
        mon.check(c.octave == b.octave + m, "marks-scale", "%d marks give %r, none %r" % (m, t(c), t(b)), **info)
        # the octave check: the checked pitch would have needed no marks
        q = p.copy()
        q.octave_check(x, scale)
        mon.check((q.note, q.alter) == (p.note, p.alter), "octave_check", "changes the note", **info)
        d = x.copy()
        d.make_relative(q, default, scale)
        mon.check(d.octave == default, "octave_check", "%r still needs %d octave marks" % (t(q), d.octave - default), **info)
        mon.ev("relative in other scale")
        p = x
        seq.append(t(x))
    mon.nontrivial(scale, tuple(seq))


def case_midi(rng, mon):
    for _ in range(20):
        key = rng.randint(-40, 200)
        flats = rng.choice((None, (), (.5, 1.5, 3, 4, 5), (1.5,), [5, 3], {4}))
        p = Pitch.from_midi(key) if flats is None and rng.random() < .5 else Pitch.from_midi(key, flats=flats)
        mon.check((p.octave + 5) * 12 + SEMI[p.note] + p.alter * 2 == key, "from_midi", "key %d is %r" % (key, p), flats=flats)
        mon.check(0 <= p.note < 7 and p.alter in (0, .5, -.5), "from_midi-range", "key %d is %r" % (key, p))
        f = (1.5, 5) if flats is None else flats
        if p.alter:
            mon.check((p.alter < 0) == (key % 12 / 2 in f), "from_midi-flats", "key %d is %r with flats %r" % (key, p, flats))
        mon.check(p.to_midi() == key, "to_midi", "key %d gives back %r" % (key, p.to_midi()))
        q = Pitch(rng.randint(-4, 6), rng.randrange(7), rng.choice((0, .5, -.5, 1, -1, 1.5, -1.5, Fraction(1, 2), .25, -.25, .75, -.75)))
        want = floor((q.octave + 5) * 12 + SEMI[q.note] + q.alter * 2)      # the key below for quarter tones
        mon.check(q.to_midi() == want and isinstance(q.to_midi(), int), "to_midi", "%r is %r, should be %r" % (q, q.to_midi(), want))
        mon.ev("midi")
        mon.nontrivial(key, str(flats))
    # another scale: seven steps, a semitone or more apart
    semi = [0]
    while len(semi) < 7:
        semi.append(semi[-1] + rng.choice((1, 1, 2, 2, 3)))
    if semi[-1] < 12:
        scale = tuple(s / 2 for s in semi)
        for _ in range(6):
            key = rng.randint(0, 127)
            # the default flats do not need to fit in the scale
            flats = rng.choice(((), tuple(x / 2 for x in range(semi[-1]) if x not in semi and rng.random() < .4)))
            p = Pitch.from_midi(key, scale, flats)
            got = (p.octave + 5) * 12 + semi[p.note] + p.alter * 2
            step = key % 12
            note = min(i for i in range(7) if semi[i] >= step) if step / 2 in flats else max(i for i in range(7) if semi[i] <= step)
            mon.check(got == key and p.note == note, "from_midi-scale", "key %d is %r in scale %r with flats %r" % (key, p, scale, flats))
            q = Pitch(rng.randint(-4, 6), rng.randrange(7), rng.choice((0, .5, -.5, 1)))
            want = (q.octave + 5) * 12 + semi[q.note] + q.alter * 2
            mon.check(q.to_midi(scale) == want, "to_midi-scale", "%r is %r in scale %r" % (q, q.to_midi(scale), scale))
            mon.ev("other scale")


def case_order(rng, mon):
    a, b = rand_pitch(rng), rand_pitch(rng)
    if rng.random() < .4:
        b = a.copy()
        if rng.random() < .7:
            setattr(b, rng.choice(("octave", "note", "alter")), rng.randrange(3))
    x, y = t(a), t(b)
    ops = {"==": (a == b, x == y), "!=": (a != b, x != y), "<": (a < b, x < y), ">": (a > b, x > y), "<=": (a <= b, x <= y), ">=": (a >= b, x >= y)}
    for k, (got, want) in ops.items():
        mon.check(got is want, "order", "%r %s %r is %r" % (x, k, y, got))
        mon.ev("order")
    mon.check((a == x) is False and (a != x) is True, "order-other", "equal to something else")
    c = a.copy()
    mon.check(c is not a and t(c) == x and type(c) is Pitch, "copy", "copy differs")
    c.octave += 1
    mon.check(t(a) == x, "copy", "copy shares state")
    mon.nontrivial(x, y)


STREAMS = {
    "relative": Stream(case_relative, 1500, 120000),
    "scale": Stream(case_other_scale, 800, 40000),
    "midi": Stream(case_midi, 800, 40000),
    "order": Stream(case_order, 1500, 60000),
}
