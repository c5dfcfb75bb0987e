r"""Random Scheme data with known values, and an own datum reader.

A datum is a tuple: ("num", value, radix) ("str", s) ("char", name)
("id", name) ("bool", b) ("list", [data...]) -- with ("dot",) before the last
item for a pair -- ("vec", [...]) ("quote", q, datum) ("comment", kind, text).
"""
import cmath
import math
from fractions import Fraction

IDS = "a foo list define lambda let if set! string->number x2 ly:music? *star* a.b <= > ... + - 1+ -1+ ->x -foo $x &rest begin? %v ~a ^b a/b _u a:b !x".split()
CHARS = ["a", "Z", "space", "newline", "tab", "(", ")", "\"", ";", "#", "'", "0", "\\", "nul", "é"]
DIG = "0123456789abcdef"


def to_radix(n, radix):
    s = ""
    while True:
        n, d = divmod(n, radix)
        s = DIG[d] + s
        if not n:
            return s


class ScmGen:
    def __init__(self, rng, escapes=True, comments=.05):
        self.r = rng
        self.escapes = escapes
        self.comments = comments

    def p(self, x): return self.r.random() < x

    # -- numbers: (text, value)
    def uint(self, radix):
        n = self.r.choice([0, 1, 2, 7, 8, 10, 15, 16, 255, 1000, 65536, 10 ** 20]) if self.p(.5) else self.r.getrandbits(self.r.randint(1, 40))
        t = to_radix(n, radix)
        if self.p(.3): t = t.upper()
        if self.p(.1): t = "0" * self.r.randint(1, 2) + t
        return t, n

    def ureal(self, radix, exact):
        k = self.r.randrange(6)
        if k <= 1:
            t, n = self.uint(radix)
            return t, Fraction(n) if exact is not False else float(n)
        if k == 2:
            t, n = self.uint(radix); u, d = self.uint(radix)
            if d == 0: u, d = "1", 1
            if exact is False:
                return t + "/" + u, n / d
            return t + "/" + u, Fraction(n, d)
        if radix != 10:
            t, n = self.uint(radix)
            return t, Fraction(n) if exact is not False else float(n)
        # decimals
        a = str(self.r.randint(0, 9999)) if self.p(.8) else ""
        b = str(self.r.randint(0, 9999)) if self.p(.8) or not a else ""
        t = a + "." + b
        if self.p(.3):
            t += "e" + self.r.choice(["", "-", "+"]) + str(self.r.randint(0, 12))
        s = t
        if s.startswith("."): s = "0" + s
        s = s.replace(".e", ".0e")
        if s.endswith("."): s += "0"
        v = Fraction(s)
        return t, v if exact else float(v)

    def real(self, radix, exact, sign=None):
        if self.p(.04) and exact is None:
            s = self.r.choice("+-")
            return s + "inf.0", math.inf if s == "+" else -math.inf
        if self.p(.02) and exact is None:
            s = self.r.choice("+-")
            return s + "nan.0", math.nan
        s = sign or self.r.choice(["", "", "", "-", "+"])
        t, v = self.ureal(radix, exact)
        return s + t, -v if s == "-" else v

    def number(self):
        radix = self.r.choice([10, 10, 10, 10, 2, 8, 16])
        exact = self.r.choice([None, None, None, True, False])
        pre = []
        if radix != 10 or self.p(.05):
            pre.append("#" + {2: "b", 8: "o", 10: "d", 16: "x"}[radix])
        if exact is not None:
            pre.append("#e" if exact else "#i")
        self.r.shuffle(pre)
        k = self.r.randrange(14)
        if k == 0 and exact is not True:
            # complex, rectangular
            a, x = self.real(radix, exact) if self.p(.7) else ("", 0)
            if self.p(.2):
                b, y = self.r.choice([("+", 1), ("-", -1)])
            else:
                b, y = self.real(radix, exact, self.r.choice("+-"))
            # a hexadecimal literal could end with an exponent-like letter, that is no problem here
            return "".join(pre) + a + b + "i", complex(x, y), radix
        if k == 1 and radix == 10 and exact is not True:
            t, v = self.r.choice([("1@2", (1, 2)), ("2.5@0.5", (2.5, .5)), ("-1@1", (-1, 1)), ("3@-1", (3, -1))])
            return "".join(pre) + t, cmath.rect(*v), radix
        if k == 2 and exact is None and radix == 10:
            t, n = self.uint(10)
            z = self.r.randint(1, 3)
            return "".join(pre) + t + "#" * z, float(n * 10 ** z), radix
        t, v = self.real(radix, exact)
        return "".join(pre) + t, v, radix

    def string(self):
        out, val = [], []
        for _ in range(self.r.randint(0, 5)):
            k = self.r.randrange(8)
            if k == 0: out.append('\\"'); val.append('"')
            elif k == 1: out.append("\\\\"); val.append("\\")
            elif k == 2 and self.escapes:
                c = self.r.choice("abfnrtv")
                out.append("\\" + c); val.append(dict(zip("abfnrtv", "\a\b\f\n\r\t\v"))[c])
            else:
                t = self.r.choice(["abc", " ", "(", ")", "'", ";x", "#t", "é音", "\n", "  two", "%", "{", "|", "#{"])
                out.append(t); val.append(t)
        return '"' + "".join(out) + '"', "".join(val)

    def ws(self, need=True):
        if self.p(self.comments):
            k = self.r.randrange(3)
            return self.r.choice([" ; line\n", "\n;;; x (\n", " ;\n", " #! block !# ", "\n#! a\n( !#\n"])
        return self.r.choice([" ", " ", " ", "\n", "  ", "\t", "\n  "]) if need else self.r.choice(["", "", " ", "\n"])

    def atom(self):
        k = self.r.randrange(10)
        if k <= 3:
            t, v, radix = self.number()
            return t, ("num", v, radix)
        if k <= 5:
            t, v = self.string()
            return t, ("str", v)
        if k == 6:
            c = self.r.choice(CHARS)
            return "#\\" + c, ("char", c)
        if k == 7:
            b = self.p(.5)
            return self.r.choice(["#t", "#T"] if b else ["#f", "#F"]), ("bool", b)
        i = self.r.choice(IDS)
        return i, ("id", i)

    def datum(self, d=3):
        if d > 0 and self.p(.45):
            k = self.r.randrange(8)
            if k <= 4:
                n = self.r.randint(0, 5)
                items = [self.datum(d - 1) for _ in range(n)]
                val = [v for t, v in items]
                texts = [t for t, v in items]
                if n >= 2 and self.p(.2):
                    texts.insert(n - 1, "."); val.insert(n - 1, ("dot",))
                return "(" + self.join(texts) + ")", ("list", val)
            if k == 5:
                items = [self.datum(d - 1) for _ in range(self.r.randint(0, 4))]
                return "#(" + self.join([t for t, v in items]) + ")", ("vec", [v for t, v in items])
            q = self.r.choice(["'", "`", ",", ",@"])
            t, v = self.datum(d - 1)
            if q == "," and t.startswith("@"): q = "'"
            return q + t, ("quote", q, v)
        return self.atom()

    def join(self, texts):
        out = []
        for i, t in enumerate(texts):
            out.append(self.ws() if i else self.ws(False))
            out.append(t)
        out.append(self.ws(False))
        s = "".join(out)
        return s

    def document(self, n):
        items = [self.datum() for _ in range(n)]
        return self.join([t for t, v in items]), [v for t, v in items]


# -- own reader ------------------------------------------------------------------

class ReadError(Exception):
    pass


def read_all(text):
    """Read Scheme data; comments are skipped."""
    p = Reader(text)
    out = []
    while p.skip():
        out.append(p.datum())
    return out


class Reader:
    def __init__(self, text):
        self.t = text
        self.i = 0

    def skip(self):
        t = self.t
        while self.i < len(t):
            c = t[self.i]
            if c.isspace(): self.i += 1
            elif c == ";":
                j = t.find("\n", self.i); self.i = len(t) if j < 0 else j + 1
            elif t.startswith("#!", self.i):
                j = t.find("!#", self.i + 2)
                if j < 0: raise ReadError("unterminated comment")
                self.i = j + 2
            else:
                return True
        return False

    def items(self):
        out = []
        while True:
            if not self.skip(): raise ReadError("unterminated list")
            if self.t[self.i] == ")":
                self.i += 1
                return out
            out.append(self.datum())

    def datum(self):
        t, i = self.t, self.i
        c = t[i]
        if c == "(":
            self.i += 1
            return ("list", self.items())
        if t.startswith("#(", i):
            self.i += 2
            return ("vec", self.items())
        if c in "'`,":
            q = ",@" if t.startswith(",@", i) else c
            self.i += len(q)
            if not self.skip(): raise ReadError("quote of nothing")
            return ("quote", q, self.datum())
        if c == '"':
            out = []
            i += 1
            while True:
                if i >= len(t): raise ReadError("unterminated string")
                c = t[i]
                if c == '"': break
                if c == "\\":
                    i += 1
                    out.append(dict(zip("abfnrtv", "\a\b\f\n\r\t\v")).get(t[i], t[i]))
                else:
                    out.append(c)
                i += 1
            self.i = i + 1
            return ("str", "".join(out))
        if t.startswith("#\\", i):
            j = i + 3
            while j < len(t) and t[i + 2].isalpha() and t[j].isalpha(): j += 1
            self.i = j
            return ("char", t[i + 2:j])
        j = i
        while j < len(t) and not t[j].isspace() and t[j] not in '()";': j += 1
        if j == i: raise ReadError("unexpected %r" % t[i])
        self.i = j
        return word(t[i:j])


def word(w):
    if w == ".": return ("dot",)
    if w in ("#t", "#T", "#f", "#F"): return ("bool", w[1] in "tT")
    n = number(w)
    return n or ("id", w)


def number(w):
    radix, exact = 10, None
    s = w.lower()
    while s[:1] == "#" and len(s) > 1:
        if s[1] in "bodx": radix = dict(b=2, o=8, d=10, x=16)[s[1]]
        elif s[1] in "ei": exact = s[1] == "e"
        else: return None
        s = s[2:]
    try:
        return ("num", parse_complex(s, radix, exact), radix)
    except (ValueError, IndexError, ZeroDivisionError):
        return None


def parse_complex(s, radix, exact):
    if "@" in s:
        a, b = s.split("@")
        return cmath.rect(parse_real(a, radix, exact), parse_real(b, radix, exact))
    if s.endswith("i") and s[-2:] != "ni":
        s = s[:-1]
        k = len(s) - 1
        while k >= 0:
            if s[k] in "+-" and not (k and radix == 10 and s[k - 1] == "e"):
                break
            k -= 1
        if k < 0: raise ValueError
        im = s[k:]
        y = {"+": 1, "-": -1}[im] if im in "+-" else parse_real(im, radix, exact)
        x = parse_real(s[:k], radix, exact) if k else 0
        return complex(x, y)
    return parse_real(s, radix, exact)


def parse_real(s, radix, exact):
    if s == "+inf.0": return math.inf
    if s == "-inf.0": return -math.inf
    if s in ("+nan.0", "-nan.0"): return math.nan
    sign = 1
    if s[0] in "+-":
        sign = -1 if s[0] == "-" else 1
        s = s[1:]
    if "/" in s:
        a, b = s.split("/")
        v = Fraction(uint(a, radix), uint(b, radix))
        return sign * (float(v) if exact is False else v)
    if radix == 10 and ("." in s or "e" in s or "#" in s):
        z = s.replace("#", "0")
        if not z[0].isdigit(): z = "0" + z
        z = z.replace(".e", ".0e")
        if z[-1] == ".": z += "0"
        v = Fraction(z)
        return sign * (v if exact else float(v))
    v = uint(s, radix)
    return sign * (float(v) if exact is False else Fraction(v))


def uint(s, radix):
    if not s or any(c not in DIG[:radix] for c in s): raise ValueError(s)
    return int(s, radix)


# -- comparison ------------------------------------------------------------------

def same_number(a, b):
    if a != a and b != b and not isinstance(a, complex) and not isinstance(b, complex):
        return True
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return all(x == y or (x != x and y != y) for x, y in ((a.real, b.real), (a.imag, b.imag)))
    return a == b


def diff(a, b, path=""):
    if a[0] != b[0]:
        return "%s: %r vs %r" % (path, a, b)
    if a[0] == "num":
        if not same_number(a[1], b[1]) or a[2] != b[2]:
            return "%s: number %r (radix %s) vs %r (radix %s)" % (path, a[1], a[2], b[1], b[2])
        x, y = (isinstance(v, (float, complex)) for v in (a[1], b[1]))
        if x != y:
            return "%s: exactness %r vs %r" % (path, a[1], b[1])
        return None
    if a[0] in ("list", "vec"):
        return diff_all(a[1], b[1], path + a[0])
    if a[0] == "quote":
        return diff(a[2], b[2], path + a[1]) if a[1] == b[1] else "%s: %r vs %r" % (path, a, b)
    return None if a == b else "%s: %r vs %r" % (path, a, b)


def diff_all(a, b, path=""):
    for i, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y, "%s[%d]" % (path, i))
        if d: return d
    if len(a) != len(b):
        return "%s: %d vs %d items" % (path, len(a), len(b))
