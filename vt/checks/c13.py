"""C13: durations and duration transforms."""
from fractions import Fraction

from vt.core import Stream
from quickly import duration as D
from quickly.duration import Transform

PROPERTY = "C13"
RULE = ("Random durations (log, dots), values that can not be written exactly, shifts and transforms; compared with exact "
        "rational arithmetic on the written definition of note lengths. Non-trivial: dotted durations, truncated values "
        "and transforms that shift and scale; distinct by value.")
NEED = ("log_dotcount", "strings", "shift", "transform", "truncated", "writable")


def exact(log, dots):
    """The length, from the definition: base length, each dot adds half of the last added part."""
    base = Fraction(1, 2 ** log) if log >= 0 else Fraction(2 ** -log)
    return sum((base / 2 ** i for i in range(dots + 1)), Fraction(0))


def text(log, dots):
    return {-1: "\\breve", -2: "\\longa", -3: "\\maxima"}.get(log, str(2 ** log) if log >= 0 else None) + "." * dots


def case(rng, mon):
    log, dots = rng.randint(-3, 12), rng.choice((0, 0, 1, 1, 2, 3, 4, 7, 12))
    v = exact(log, dots)
    mon.check(D.duration(log, dots) == v and isinstance(D.duration(log, dots), Fraction), "duration", "duration(%d, %d) is %r" % (log, dots, D.duration(log, dots)))
    mon.check(D.log_dotcount(v) == (log, dots), "log_dotcount", "log_dotcount(%s) is %r" % (v, D.log_dotcount(v)))
    mon.check(D.log_dotcount(float(v)) == (log, dots), "log_dotcount-float", "log_dotcount(%r) is %r" % (float(v), D.log_dotcount(float(v))))
    mon.ev("log_dotcount")
    s = text(log, dots)
    mon.check(D.to_string(v) == s, "to_string", "to_string(%s) is %r" % (v, D.to_string(v)))
    mon.check(D.from_string(s) == v, "from_string", "from_string(%r) is %r" % (s, D.from_string(s)))
    mon.check(D.from_string(s.replace("\\", "")) == v, "from_string", "without backslash")
    mon.check(D.from_string(s.rstrip("."), dots) == v, "from_string-dots", "with dotcount")
    mon.check(D.from_string(" " + s[:len(s) - dots] + rng.choice(["", " ", "\t", "  "]) + "." * dots + rng.choice([" ", "\t", ""])) == v, "from_string-space", "with whitespace")
    mon.ev("strings")
    for bad in ("brev", "x4", "..", ""):
        try:
            D.from_string(bad)
        except ValueError:
            pass
        else:
            mon.fail("invalid", "%r accepted" % bad)
    for long_ in (16, 24, 1000):
        try:
            D.to_string(long_)
        except IndexError:
            pass
        else:
            mon.fail("too-long", "%r written" % long_)
    # any value is truncated to the longest writable value that is not longer
    x = Fraction(rng.randint(1, 4000), rng.choice((1, 2, 3, 5, 7, 64, 128, 1024, 999)) * rng.choice((1, 16, 256)))
    if x < 16:
        l, d = D.log_dotcount(x)
        y = exact(l, d)
        mon.check(d >= 0 and y <= x, "truncate", "%s truncated to %s" % (x, y))
        mon.check(exact(l, 0) <= x < exact(l - 1, 0), "truncate-base", "base duration of %s is 2**%d" % (x, -l))
        mon.check(exact(l, d + 1) > x, "truncate-dots", "%s is truncated to %s, %s is closer" % (x, y, exact(l, d + 1)))
        mon.check(D.duration(*D.log_dotcount(x)) == y, "truncate", "duration differs")
        if y != x:
            mon.ev("truncated")
            mon.nontrivial("t", x)
        mon.check(D.is_writable(x) == (y == x and Fraction(1, 1024) <= x < 16), "writable", "is_writable(%s) is %r" % (x, D.is_writable(x)))
    for y in (16, 24, 32, 1000, Fraction(33, 2), Fraction(1, 2048), Fraction(7, 8192), Fraction(1, 3)):
        mon.check(not D.is_writable(y), "writable", "is_writable(%s) is %r" % (y, D.is_writable(y)))
    mon.check(D.is_writable(v) == (Fraction(1, 1024) <= v < 16), "writable", "is_writable(%s) is %r" % (v, D.is_writable(v)))
    mon.ev("writable")
    # shifting
    dl, dd = rng.randint(-2, 4), rng.randint(-3, 3)
    if log + dl >= -3:
        got = D.shift_duration(v, dl, dd)
        want = exact(log + dl, max(0, dots + dd))
        mon.check(got == want and isinstance(got, Fraction), "shift", "shift_duration(%s, %d, %d) is %s, should be %s" % (v, dl, dd, got, want))
        if log >= -3:
            back = D.shift_duration(D.shift_duration(v, dl), -dl)
            mon.check(back == v, "shift-back", "shifting back gives %s" % back)
        mon.ev("shift")
    if dots:
        mon.nontrivial(log, dots)
    # transforms
    a = Transform(rng.randint(-1, 2), rng.randint(-2, 2), Fraction(rng.randint(1, 9), rng.randint(1, 9)))
    b = Transform(rng.randint(-1, 2), rng.randint(-2, 2), Fraction(rng.randint(1, 9), rng.randint(1, 9)))
    if rng.random() < .1:
        rng.choice([a, b]).scale = rng.choice([Fraction(0), 0])
    scaling = Fraction(rng.randint(1, 7), rng.randint(1, 7))
    if log >= -1:
        d1, s1 = a.transform(v, scaling)
        mon.check((d1, s1) == (exact(log + a.log, max(0, dots + a.dotcount)), scaling * a.scale), "transform", "transform gives %r" % ((d1, s1),),
                  value=str(v), a=repr(a))
        mon.check(a.length(v, scaling) == d1 * s1, "length", "length is not duration * scaling")
        both = b.transform(*a.transform(v, scaling))
        add = (a + b).transform(v, scaling)
        # the number of dots does not drop below zero, that depends on the order
        dropped = dots + a.dotcount < 0 < b.dotcount
        mon.check(both == add, "add-below-zero" if dropped else "add", "the sum of two transforms does not do what both do: %r, %r" % (add, both), a=repr(a), b=repr(b))
        mon.check((a + b).transform(v, scaling) == (b + a).transform(v, scaling), "add-commutative", "order of adding matters")
        mon.check((a.log, a.dotcount, a.scale) == (a.log + Transform().log, a.dotcount, a.scale), "neutral", "")
        n = a + Transform()
        mon.check((n.log, n.dotcount, n.scale) == (a.log, a.dotcount, a.scale), "neutral", "adding an empty transform changes it")
        mon.ev("transform")
        mon.nontrivial(a.log, a.dotcount, str(a.scale), b.log, b.dotcount, str(b.scale))
    t = Transform(a.log, a.dotcount, rng.choice((1, a.scale)))
    mon.check(bool(t) == (t.log != 0 or t.dotcount != 0 or t.scale != 1), "bool", "bool(%r) is %r" % (t, bool(t)))
    mon.check(Transform().transform(v, scaling) == (v, scaling), "neutral", "an empty transform changes the duration")
    mon.sample(dict(value=str(v), text=s, value2=str(x)))


STREAMS = {"values": Stream(case, 4000, 250000)}
