r"""C08: Scheme values survive reading, writing and conversion."""
import contextlib
import io
import math
import re
from fractions import Fraction

from vt.core import Stream
from vt import scmgen
from vt.scmgen import ScmGen, diff_all, read_all, IDS
from vt.util import tree_diff, sig
from quickly.dom import read, scm, lily, element, base

PROPERTY = "C08"
RULE = ("Generated Scheme data with values known at generation (numbers in all radices, exactness prefixes, decimals, "
        "exponents, complex, polar, unknown digits, infinities; strings, characters, identifiers, lists, pairs, vectors, "
        "quotes, comments), alone and inside LilyPond. Monitors: the tree read, converted by an own walker, equals the known "
        "data; the written text read with an own Scheme datum reader gives that data again; reading the written text gives an "
        "equal tree; writing is stable. Python values are converted to elements, written, read and converted back, and must "
        "be equal with the same type. Non-trivial: at least 3 data; distinct by text.")
ASSUMPTIONS = ["division by zero in an exact fraction (1/0) is not a number and not generated",
               "exponents are small; identifiers contain no |"]
NEED = ("datum read", "written read by own reader", "reread", "stable", "in lilypond", "python value", "lily value", "escape read")

RADIX = {scm.Number: 10, scm.Hex: 16, scm.Bin: 2, scm.Oct: 8}


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def datum(n):
    t = type(n)
    if t is scm.Bool:
        return ("bool", n.head)
    if t is scm.NaN:
        return ("num", math.nan, 10)
    if t in RADIX:
        return ("num", n.head, RADIX[t])
    if t is scm.String:
        return ("str", n.head)
    if t is scm.Char:
        return ("char", n.head)
    if t is scm.Identifier:
        return ("id", n.head)
    if t is scm.Dot:
        return ("dot",)
    if t is scm.List:
        return ("list", data(n))
    if t is scm.Vector:
        return ("vec", data(n))
    if t is scm.Quote:
        return ("quote", n.head, *data(n))
    return ("unknown", repr(n))


def data(n):
    return [datum(c) for c in list.__iter__(n) if not isinstance(c, base.Comment)]


def count(l):
    return sum(1 + (count(d[1]) if d[0] in ("list", "vec") else count([d[2]]) if d[0] == "quote" else 0) for d in l)


def judge(mon, text, expected, key=""):
    assert diff_all(read_all(text), expected) is None, (text, diff_all(read_all(text), expected))
    d = quiet(read.scm_document, text)
    got = data(d)
    x = diff_all(expected, got)
    if x:
        mon.fail(key or "read-value", "value read differs: %s" % x, text=text)
        return d
    mon.ev("datum read", count(got))
    w = d.write()
    try:
        back = read_all(w)
    except scmgen.ReadError as e:
        mon.fail(key or "written-unreadable", "written text is no Scheme: %s" % e, text=text, written=w)
        return d
    x = diff_all(expected, back)
    mon.check(x is None, key or "written-value", "written value differs: %s" % x, text=text, written=w)
    mon.ev("written read by own reader")
    d2 = quiet(read.scm_document, w)
    x = tree_diff(d, d2)
    mon.check(x is None, key or "reread", "tree differs after writing and reading: %s" % x, text=text, written=w)
    mon.check(d.equals(d2) and d2.equals(d), key or "equals", "equals() says the reread tree differs", text=text, written=w)
    mon.ev("reread")
    wi = d.write_indented()
    x = diff_all(expected, read_all(wi))
    mon.check(x is None, key or "indented-value", "value in indented text differs: %s" % x, text=text, written=wi)
    mon.check(d2.write() == w, key or "not-stable", "writing again gives other text", text=text, first=w, second=d2.write())
    mon.ev("stable")
    c = d.copy()
    mon.check(tree_diff(c, d) is None and c.write() == w, "copy", "copy differs", text=text)
    return d


def case_data(rng, mon):
    text, expected = ScmGen(rng, escapes=False, comments=rng.choice([0, .05])).document(rng.randint(1, 5))
    d = judge(mon, text, expected)
    if count(expected) >= 3:
        mon.nontrivial(text)
    mon.sample(text)


def case_numbers(rng, mon):
    r"""Only numbers, close to each other."""
    g = ScmGen(rng)
    texts, vals = [], []
    for _ in range(rng.randint(3, 8)):
        t, v, radix = g.number()
        texts.append(t); vals.append(("num", v, radix))
    judge(mon, " ".join(texts), vals)
    mon.nontrivial(*texts)
    mon.sample(" ".join(texts))


def case_lilypond(rng, mon):
    r"""Scheme inside LilyPond."""
    out, expected = [], []
    for _ in range(rng.randint(1, 4)):
        t, v = ScmGen(rng, escapes=False, comments=0).datum()
        k = rng.randrange(4)
        h = rng.choice("##$") if not t.startswith(("@", "'")) else "#"
        if t.startswith(("#", ",@")) and h == "$":
            h = "#"
        if k == 0:
            out.append("x%s = %s%s\n" % ("abcdef"[len(out)], h, t))
        elif k == 1:
            out.append("\\header { x = %s%s }\n" % (h, t))
        elif k == 2:
            out.append("{ \\override Staff.Foo.bar = %s%s c4 }\n" % (h, t))
        else:
            out.append("\\markup { a \\b %s%s }\n" % (h, t))
        expected.append(v)
    text = "".join(out)
    d = quiet(read.lily_document, text)
    got = [data(n) for n in d // lily.Scheme]
    mon.check(all(len(g) == 1 for g in got), "lily-count", "Scheme element without exactly one datum", text=text)
    x = diff_all(expected, [g[0] for g in got])
    mon.check(x is None, "lily-value", "value in LilyPond differs: %s" % x, text=text)
    w = d.write()
    d2 = quiet(read.lily_document, w)
    x = diff_all(expected, [data(n)[0] for n in d2 // lily.Scheme])
    mon.check(x is None, "lily-written-value", "written value in LilyPond differs: %s" % x, text=text, written=w)
    mon.check(tree_diff(d, d2) is None, "lily-reread", "tree differs: %s" % tree_diff(d, d2), text=text, written=w)
    mon.ev("in lilypond", len(expected))
    if count(expected) >= 3:
        mon.nontrivial(text)
    mon.sample(text)


def case_escapes(rng, mon):
    r"""Strings with control character escapes."""
    s, v = ScmGen(rng).string()
    plain = re.sub(r"\\(.)", r"\1", s[1:-1], flags=re.S)
    got = quiet(read.scm, s)
    if isinstance(got, scm.String) and got.head == plain != v:
        mon.fail("scheme-string-escape", "%s is read as %r" % (s, got.head))
        # for the rest it must behave as that other string
        w = got.write()
        mon.check(diff_all(read_all(w), [("str", plain)]) is None, "escape-written", "written %r" % w, text=s)
        mon.check(tree_diff(quiet(read.scm, w), got) is None, "escape-reread", "written %r" % w, text=s)
    else:
        judge(mon, s, [("str", v)])
    mon.ev("escape read")
    mon.nontrivial(s)
    mon.sample(s)


CH = list("abc \"\\;()#'éö音\n\t{}%|") + ["\\n", "#{", "#!"]


def value(rng, d=3):
    k = rng.randrange(9)
    if k <= 1:
        return rng.choice([0, 1, -1, rng.getrandbits(40), -rng.getrandbits(9)])
    if k == 2:
        return rng.choice([0.0, 1.5, -2.25, 1e30, 1e-9, -1e22, 0.1, float(rng.getrandbits(8)), math.inf, -math.inf, rng.random()])
    if k == 3:
        return rng.random() < .5
    if k == 4:
        return Fraction(rng.randint(-50, 50), rng.choice([2, 3, 7, 16]) ) + Fraction(1, 1000003)
    if k <= 6 or d == 0:
        return "".join(rng.choice(CH) for _ in range(rng.randint(0, 6)))
    if k == 7:
        return [value(rng, d - 1) for _ in range(rng.randint(0, 4))]
    return tuple(value(rng, d - 1) for _ in range(rng.randint(2, 4)))


def to_datum(v):
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float, Fraction)):
        return ("num", v, 10)
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, list):
        return ("list", [to_datum(x) for x in v])
    l = [to_datum(x) for x in v]
    return ("list", l[:-1] + [("dot",)] + l[-1:])


def from_datum(d):
    if d[0] in ("bool", "num", "str"):
        return d[1]
    assert d[0] == "list", d
    l = [x for x in d[1] if x != ("dot",)]
    if len(l) != len(d[1]):
        return tuple(map(from_datum, l))
    return list(map(from_datum, l))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def case_python(rng, mon):
    v = value(rng)
    n = scm.create_element_from_value(v)
    mon.check(same(from_datum(datum(n)), v), "element-value", "element has other value", value=v, element=repr(n))
    text = n.write()
    x = diff_all([to_datum(v)], read_all(text))
    # escape sequences that are plain letters in this reader's notation are not written
    mon.check(x is None, "element-written", "value is written wrong: %s" % x, value=v, written=text)
    m = quiet(read.scm, text)
    mon.check(m is not None and same(from_datum(datum(m)), v), "element-reread", "value is read back differently", value=v, written=text, got=repr(m))
    mon.check(tree_diff(n, m) is None, "element-tree", "tree differs: %s" % tree_diff(n, m), value=v)
    # helper functions
    q = rng.choice([scm.q, scm.qq, scm.uq])
    e = q(v)
    exp = ("quote", {scm.q: "'", scm.qq: "`", scm.uq: ","}[q], to_datum(v))
    mon.check(diff_all([exp], read_all(e.write())) is None, "quote", "quoting helper writes %r" % e.write(), value=v)
    a, b = value(rng, 1), value(rng, 1)
    p = scm.p(a, b)
    mon.check(diff_all([to_datum((a, b))], read_all(p.write())) is None, "pair", "pair helper writes %r" % p.write(), value=(a, b))
    i = scm.i(rng.choice(IDS))
    mon.check(read_all(i.write()) == [("id", i.head)], "identifier", "identifier helper writes %r" % i.write())
    mon.ev("python value")
    # values in LilyPond
    lv = value(rng, 0)
    if isinstance(lv, Fraction) or (isinstance(lv, float) and (math.isinf(lv) or "e" in str(lv) or lv < 0)) or (isinstance(lv, int) and lv < 0 and not isinstance(lv, bool)):
        lv = abs(rng.randint(0, 99)) + .5
    if isinstance(lv, (int, float)) and not isinstance(lv, bool) and rng.random() < .4:
        lv = (lv, rng.choice(["mm", "cm", "in", "pt"]))
    e = lily.create_element_from_value(lv)
    got = lily.create_value_from_element(e)
    mon.check(same(got, lv), "lily-element-value", "element has value %r" % (got,), value=lv, element=repr(e))
    text = "\\paper { foo = %s }" % e.write()
    d = quiet(read.lily_document, text)
    for a in d // lily.Assignment:
        m = a[-1]
        got = lily.create_value_from_element(m)
        mon.check(same(got, lv), "lily-reread-value", "value is read back as %r" % (got,), value=lv, text=text)
        mon.ev("lily value")
    # Scheme values inside LilyPond
    s = value(rng, 0)
    text = "\\paper { foo = #%s }" % scm.s(s).write()
    d = quiet(read.lily_document, text)
    for a in d // lily.Assignment:
        got = lily.create_value_from_element(a[-1])
        mon.check(same(got, s), "lily-scheme-value", "Scheme value is read as %r" % (got,), value=s, text=text)
        mon.ev("lily value")
    mon.nontrivial(repr(v))
    mon.sample(repr(v))


STREAMS = {
    "numbers": Stream(case_numbers, 6000, 200000),
    "data": Stream(case_data, 8000, 300000),
    "lilypond": Stream(case_lilypond, 2500, 60000),
    "escapes": Stream(case_escapes, 800, 10000),
    "python": Stream(case_python, 4000, 100000),
}
