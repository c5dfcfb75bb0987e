"""C19: number notations."""
import string

from vt.core import Stream
from quickly import numbering as N

PROPERTY = "C19"
RULE = ("Random integers over several magnitudes are converted to roman numerals, letters (several alphabets) and English "
        "text and back, compared with independent conversions. Non-trivial: numbers above 20; distinct by number.")
NEED = ("roman", "letter", "text", "errors")

ROMAN = {"M": 1000, "D": 500, "C": 100, "L": 50, "X": 10, "V": 5, "I": 1}
ONES = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
TENS = "twenty thirty forty fifty sixty seventy eighty ninety".split()


def digits(n):
    """Roman numeral, digit by digit."""
    def d(x, one, five, ten):
        return ("", one, one * 2, one * 3, one + five, five, five + one, five + one * 2, five + one * 3, one + ten)[x]
    return "M" * (n // 1000) + d(n // 100 % 10, "C", "D", "M") + d(n // 10 % 10, "X", "L", "C") + d(n % 10, "I", "V", "X")


def words(n):
    if n < 20:
        return ONES[n]
    if n < 100:
        return TENS[n // 10 - 2] + (ONES[n % 10] if n % 10 else "")
    for f, name in ((1000000, "million"), (1000, "thousand"), (100, "hundred")):
        if n >= f:
            return words(n // f) + name + (words(n % f) if n % f else "")


def case(rng, mon):
    n = rng.choice((rng.randint(1, 50), rng.randint(1, 4000), rng.randint(1, 20000)))
    r = N.int2roman(n)
    mon.check(r == digits(n), "roman", "int2roman(%d) is %r" % (n, r))
    mon.check(N.roman2int(r) == n and N.roman2int(r.lower()) == n, "roman-back", "%r is read as %r" % (r, N.roman2int(r)))
    mon.ev("roman")
    # letters
    chars = rng.choice((string.ascii_uppercase, string.ascii_lowercase, "AB", "xyz", "ABCDEFGHI"))
    m = rng.choice((rng.randint(0, 60), rng.randint(0, 10000), rng.randint(0, 10 ** 9)))
    args = () if chars is string.ascii_uppercase and rng.random() < .5 else (chars,)
    l = N.int2letter(m, *args)
    mon.check(set(l) <= set(chars), "letter-chars", "%r" % l)
    v = 0
    for c in l:
        v = v * len(chars) + chars.index(c) + 1
    mon.check(v == m, "letter", "int2letter(%d) is %r" % (m, l))
    mon.check(N.letter2int(l, *args) == m, "letter-back", "%r is read as %r" % (l, N.letter2int(l, *args)))
    nxt = N.int2letter(m + 1, *args)
    mon.check((len(nxt), [chars.index(c) for c in nxt]) > (len(l), [chars.index(c) for c in l]), "letter-order", "%r does not come after %r" % (nxt, l))
    mon.ev("letter")
    # text
    k = rng.choice((rng.randint(0, 130), rng.randint(0, 10000), rng.randint(0, 999999999), rng.randint(1, 999) * 1000000, rng.randint(1, 999) * 1000))
    t = N.int2text(k)
    mon.check(t.lower() == words(k), "text", "int2text(%d) is %r" % (k, t))
    mon.check(t.isalpha() and t[0].isupper(), "text-identifier", "%r" % t)
    mon.check(N.text2int(t) == k, "text-back", "%r is read as %r" % (t, N.text2int(t)))
    mon.check(N.text2int(t.lower()) == k, "text-lower", "%r is read as %r" % (t.lower(), N.text2int(t.lower())))
    pre = rng.choice(("violin", "music", "part ", "bar-"))
    mon.check(N.text2int(pre + t) == k, "text-prefix", "%r is read as %r" % (pre + t, N.text2int(pre + t)))
    mon.ev("text")
    for f, e in ((lambda: N.int2roman(rng.choice((0, -1, -100))), ValueError), (lambda: N.roman2int("XA"), KeyError), (lambda: N.letter2int("A1"), ValueError)):
        try:
            f()
        except e:
            mon.ev("errors")
        else:
            mon.fail("error", "invalid value accepted")
    mon.check(N.text2int(rng.choice(("", "xyz", "---"))) == 0 and N.letter2int("") == 0, "empty", "")
    if n > 20 and m > 20 and k > 20:
        mon.nontrivial(n, m, k)
    mon.sample((n, r, m, l, k, t))


STREAMS = {"numbers": Stream(case, 3000, 40000)}
