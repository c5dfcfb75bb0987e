r"""An independent, minimal tokenizer for LilyPond text.

Used to compare texts: splits in strings, comments and other text, without
any knowledge of what the rest means.  Written from the LilyPond syntax, not
from the library.
"""
import re

_RX = re.compile(r'''
    (?P<string>"(?:\\.|[^"\\])*")
  | (?P<block>%\{.*?(?:%\}|\Z))
  | (?P<line>%[^\n]*)
  | (?P<space>\s+)
  | (?P<other>.)
''', re.X | re.S)


def pieces(text):
    """Yield (kind, text, position)."""
    for m in _RX.finditer(text):
        yield m.lastgroup, m.group(), m.start()


def skeleton(text):
    """The text without whitespace outside strings and comments, in a list of
    significant characters, strings and comments.  Equivalent spellings (case
    of hexadecimal scheme numbers, product of duration scalings) are
    normalized."""
    out = []
    for kind, t, pos in pieces(text):
        if kind == "space":
            continue
        if kind == "line":
            t = t.rstrip("\r")
        out.append((kind, t))
    return out


def plain(text):
    """Skeleton as a single string, comments and strings included."""
    s = "".join(t for k, t in skeleton(text))
    s = re.sub(r"#x[0-9A-Fa-f]+", lambda m: m.group().lower(), s)
    return _scalings(s)


def _scalings(s):
    from fractions import Fraction
    def f(m):
        v = Fraction(1)
        for p in m.group(2).split("*")[1:]:
            v *= Fraction(p)
        return m.group(1) + ("" if v == 1 else "*%s" % v)
    return re.sub(r"(\d\.*|\\breve\.*|\\longa\.*|\\maxima\.*)((?:\*\d+(?:/\d+)?)+)", f, s)


def first_diff(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return "at %d: %r / %r" % (n, a[max(0, n-40):n+40], b[max(0, n-40):n+40])
