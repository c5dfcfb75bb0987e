r"""C23: documents built by hand: elements, markup functions, Scheme helpers."""
import io
import re
from fractions import Fraction

from vt import lytext, scmgen
from vt.core import Stream
from vt.treegen import TreeGen, esc
from vt.util import sig, tree_diff
from quickly import duration as qduration
from quickly.datatypes import Properties
from quickly.dom import base, element, htm, lily, markup as M, read, scm, tex

PROPERTY = "C23"
RULE = ("A generator writes LilyPond text from the LilyPond syntax and at the same time builds the tree with the documented "
        "constructors: reading the text must give the built tree, and writing the built tree must give the same text apart "
        "from whitespace. Markup functions are called with random arguments, and the written text is read by an own markup "
        "tokenizer and compared with the expected command and arguments; the Scheme helpers are compared with an own datum "
        "reader. Non-trivial: documents with at least 15 elements, markup with at least two commands; distinct by text.")
ASSUMPTIONS = ["the text written by the generator is valid LilyPond and means what the constructors document",
               "\\fill-with-pattern can not be read by the parce lexer (IndexError in parce); only its written text is judged"]
NEED = ("python code", "read equals built", "written equals text", "reread", "with origin", "rebuilt", "markup function", "markup reread",
        "special markup function", "markup word", "markup quoted", "markup scheme", "markup list", "markup score", "scheme helper",
        "duration string", "add note", "add pitched rest", "add tempo", "add tuplet", "add skip", "add figure", "properties", "one element", "invalid head") + tuple(
        "used expr %d" % i for i in range(25)) + tuple("used command %d" % i for i in range(29)) + tuple(
        "used " + k for k in ("old syntax", "scaling", "events", "accidental", "octave check", "pitched rest", "chord", "simultaneous", "with", "lyricmode",
        "drummode", "chordmode", "figuremode", "markup", "assignment", "header", "paper", "layout", "score", "book", "tweak", "spanner id", "comment", "bare duration"))


def count(n):
    return 1 + sum(1 for d in n.descendants())


def case_tree(rng, mon):
    g = TreeGen(rng)
    text, built = g.document(rng.choice((1, 2, 2, 3)))
    for k in g.used:
        mon.ev("used " + k)
    d = read.lily_document(text)
    mon.check(sig(d) == sig(built), "read", "reading gives another tree than the one built by hand", text=text, diff=tree_diff(built, d))
    mon.check(d.equals(built) and built.equals(d), "equals", "trees with equal contents are not equal()", text=text)
    mon.ev("read equals built")
    w = built.write()
    a, b = lytext.plain(w), lytext.plain(text)
    mon.check(a == b, "write", "a tree built by hand is written differently", text=text, written=w, diff=lytext.first_diff(a, b))
    mon.ev("written equals text")
    d2 = read.lily_document(w)
    mon.check(sig(d2) == sig(built), "reread", "the written text is read as another tree", text=text, written=w, diff=tree_diff(built, d2))
    mon.ev("reread")
    d3 = read.lily_document(text, True)
    mon.check(sig(d3) == sig(built), "origin", "reading with origin gives another tree", text=text, diff=tree_diff(built, d3))
    mon.ev("with origin")
    # rebuild the tree that was read with the constructors
    r = rebuild(d3)
    mon.check(sig(r) == sig(built) and r.write() == w, "rebuild", "a tree rebuilt with the constructors differs", text=text, written=r.write(), expected=w)
    mon.ev("rebuilt")
    python_code(built, mon, text)
    if len(built) == 1:
        one = read.lily(text)
        mon.check(sig(one) == sig(built[0]), "one", "read.lily() gives another element", text=text, got=repr(one))
        mon.ev("one element")
    if count(built) > 15:
        mon.nontrivial(text)
    mon.sample(text[:300])


def python_code(tree, mon, text):
    """The Python code printed by py_dump() builds the same tree."""
    f = io.StringIO()
    tree.py_dump(f)
    code = f.getvalue()
    try:
        made = eval(code, {"lily": lily, "scm": scm, "htm": htm, "tex": tex, "base": base, "Fraction": Fraction})
    except Exception as e:
        mon.fail("py_dump", "the code printed by py_dump() fails: %r" % e, text=text, code=code)
    mon.check(sig(made) == sig(tree), "py_dump", "the code printed by py_dump() builds another tree", text=text, code=code, diff=tree_diff(tree, made))
    lines = code.splitlines()
    depth = {id(tree): 0}
    for n in tree.descendants():
        depth[id(n)] = depth[id(n.parent)] + 1
    want = [d * 4 for d in depth.values()]
    got = [len(l) - len(l.lstrip(" ")) for l in lines]
    if len(got) == len(want):       # no multiline values
        mon.check(got == want, "py_dump indent", "the code printed by py_dump() is not indented by depth", text=text, code=code)
    mon.ev("python code")


def rebuild(n):
    kids = [rebuild(c) for c in n]
    if isinstance(n, element.TextElement):
        return type(n)(n.head, *kids)
    return type(n)(*kids)


# ---- markup ----

MARKUP_TOKEN = re.compile(r'\s+|(?P<str>"(?:\\.|[^"\\])*")|(?P<cmd>\\[A-Za-z]+(?:-[A-Za-z]+)*)|(?P<br>[{}])|(?P<scm>#)|(?P<word>[^\s"\\{}#][^\s"\\{}]*)', re.S)


def tokens(text):
    """Own markup tokenizer: list of ("cmd", name) ("br", c) ("str", s) ("scm", datum) ("word", w)."""
    out, i = [], 0
    while i < len(text):
        m = MARKUP_TOKEN.match(text, i)
        if not m:
            return out + [("?", text[i:])]
        i = m.end()
        k = m.lastgroup
        if k == "str":
            out.append(("str", re.sub(r"\\(.)", r"\1", m.group()[1:-1], flags=re.S)))
        elif k == "scm":
            r = scmgen.Reader(text)
            r.i = i
            out.append(("scm", r.datum()))
            i = r.i
        elif k:
            out.append((k, m.group()[1:] if k == "cmd" else m.group()))
    return out


WORDS = ["a", "word", "two words", "é", "a\"b", "a\\b", "{", "}", "#x", "$y", "%no", "", "4.", "don't", "-", "(x)", " ", "A|B", "a%b", "\\bold", "~", "x\ny", "1/2", "日本"]
# the commands with only markup arguments, from the LilyPond notation reference (a selection)
TEXT1 = ("bold italic box bracket caps center_align center_column circle column concat dir_column dynamic ellipse fill_line finger fontCaps hbracket "
         "huge justify justify_line large larger left_align left_column line medium normal_size_sub normal_size_super normal_text normalsize number oval overlay "
         "overtie parenthesize right_align right_column roman rounded_box sans simple small smallCaps smaller sub super teeny text tie tiny transparent typewriter underline "
         "undertie upright vcenter whiteout wordwrap").split()
NUM1 = "hspace vspace slashed_digit draw_dashed_line_ markletter markalphabet".split()[:3]
NULLARY = "doubleflat doublesharp draw_hline fermata flat natural null semiflat semisharp sesquiflat sesquisharp sharp strut".split()
NUM2 = "raise_ lower fontsize abs_fontsize magnify rotate hcenter_in halign pad_around pad_markup pad_x with_color scale".split()


class Mk:
    """Build (node, expected tokens) pairs."""
    def __init__(self, rng, mon):
        self.r, self.mon = rng, mon
        self.cmds = 0
        self.readable = True

    def num(self):
        v = self.r.choice((0, 1, -2, 3, .5, -1.25, 10))
        return v, ("scm", ("num", v, 10))

    def arg(self, depth):
        """A python value or element, and the tokens expected for it."""
        k = self.r.randrange(7 if depth else 4)
        if k <= 1:
            w = self.r.choice(WORDS)
            if re.fullmatch(r'[^\s"\\{}#$%][^\s"\\{}#$]*', w):
                self.mon.ev("markup word")
                return w, [("word", w)]
            self.mon.ev("markup quoted")
            return w, [("str", w)]
        if k == 2:
            v, t = self.num()
            self.mon.ev("markup scheme")
            return v, [t]
        if k == 3:
            v = self.r.random() < .5
            return v, [("scm", ("bool", v))]
        return self.command(depth - 1)

    def args(self, depth):
        """Some arguments, that are wrapped in brackets if not exactly one."""
        n = self.r.choice((1, 1, 0, 2, 3))
        items = [self.arg(depth) for i in range(n)]
        toks = [t for _, ts in items for t in ts]
        if n != 1:
            self.mon.ev("markup list")
            toks = [("br", "{")] + toks + [("br", "}")]
        return [a for a, _ in items], toks

    def command(self, depth):
        self.cmds += 1
        k = self.r.randrange(5)
        self.mon.ev("markup function")
        if k == 0:
            f = self.r.choice(NULLARY)
            return getattr(M, f)(), [("cmd", f.replace("_", "-"))]
        if k <= 2:
            f = self.r.choice(TEXT1)
            a, t = self.args(depth)
            return getattr(M, f)(*a), [("cmd", f.replace("_", "-"))] + t
        if k == 3:
            f = self.r.choice(NUM2)
            v, s = self.num()
            a, t = self.args(depth)
            return getattr(M, f)(v, *a), [("cmd", f.rstrip("_").replace("_", "-")), s] + t
        return self.special(depth)

    def special(self, depth):
        self.mon.ev("special markup function")
        r = self.r
        s = r.choice(("x", "a b", "q\"", "b\\s", "file.ly", "http://a/#b"))
        name = r.choice(("foo", "header:title", "my-label"))
        x, y, z, u = (self.num() for i in range(4))
        n = lambda v: v[0]
        d = lambda v: v[1][1]
        pair = lambda a, b: ("scm", ("quote", "'", ("list", [a, ("dot",), b])))
        st, sym, nm = ("scm", ("str", s)), ("scm", ("quote", "'", ("id", name))), lambda v: v[1]
        a, t = self.args(depth)
        e1, t1 = self.arg(0)
        e2, t2 = self.arg(0)
        e3, t3 = self.arg(0)
        dur = r.choice(("4.", "8", "2.."))
        durl = [("br", "{"), ("word", dur), ("br", "}")]
        alist = lily.Scheme("#", scm.q([1, 2])), ("scm", ("quote", "'", ("list", [("num", 1, 10), ("num", 2, 10)])))
        code = r.choice((0x41, 0x2a, 0x1F600, 255))
        cmds = [
            (lambda: M.char(code), "char", [("scm", ("num", code, 16))]),
            (lambda: M.tied_lyric(s), "tied-lyric", [st]),
            (lambda: M.fret_diagram(s), "fret-diagram", [st]),
            (lambda: M.fret_diagram_terse(s), "fret-diagram-terse", [st]),
            (lambda: M.fret_diagram_verbose(alist[0]), "fret-diagram-verbose", [alist[1]]),
            (lambda: M.fromproperty(name), "fromproperty", [sym]),
            (lambda: M.harp_pedal(s), "harp-pedal", [("str", s)]),
            (lambda: M.justify_field(name), "justify-field", [sym]),
            (lambda: M.wordwrap_field(name), "wordwrap-field", [sym]),
            (lambda: M.justify_string(s), "justify-string", [st]),
            (lambda: M.wordwrap_string(s), "wordwrap-string", [st]),
            (lambda: M.lookup(s), "lookup", [st]),
            (lambda: M.musicglyph(s), "musicglyph", [st]),
            (lambda: M.postscript(s), "postscript", [st]),
            (lambda: M.postscript(alist[0]), "postscript", [alist[1]]),
            (lambda: M.rest(dur), "rest", durl),
            (lambda: M.verbatim_file(s), "verbatim-file", [st]),
            (lambda: M.note(dur, n(x)), "note", durl + [nm(x)]),
            (lambda: M.override(name, n(x), *a), "override", [pair(("id", name), d(x))] + t),
            (lambda: M.override(name, s, *a), "override", [pair(("id", name), ("str", s))] + t),
            (lambda: M.override_lines(name, True, *a), "override-lines", [pair(("id", name), ("bool", True))] + t),
            (lambda: M.translate(n(x), n(y), *a), "translate", [pair(d(x), d(y))] + t),
            (lambda: M.translate_scaled(n(x), n(y), *a), "translate-scaled", [pair(d(x), d(y))] + t),
            (lambda: M.with_link(name, *a), "with-link", [sym] + t),
            (lambda: M.with_url(s, *a), "with-url", [st] + t),
            (lambda: M.woodwind_diagram(name, alist[0]), "woodwind-diagram", [sym, alist[1]]),
            (lambda: M.draw_squiggle_line(n(x), n(y), n(z), True), "draw-squiggle-line", [nm(x), pair(d(y), d(z)), ("scm", ("bool", True))]),
            (lambda: M.epsfile(0, n(x), s), "epsfile", [("scm", ("num", 0, 10)), nm(x), st]),
            (lambda: M.filled_box(n(x), n(y), n(z), n(u), 1), "filled-box", [pair(d(x), d(z)), pair(d(y), d(u)), ("scm", ("num", 1, 10))]),
            (lambda: M.note_by_number(3, 1, n(x)), "note-by-number", [("scm", ("num", 3, 10)), ("scm", ("num", 1, 10)), nm(x)]),
            (lambda: M.pad_to_box(n(x), n(y), n(z), n(u), *a), "pad-to-box", [pair(d(x), d(z)), pair(d(y), d(u))] + t),
            (lambda: M.with_dimensions(n(x), n(y), n(z), n(u), *a), "with-dimensions", [pair(d(x), d(z)), pair(d(y), d(u))] + t),
            (lambda: M.page_ref(name, e1, *a), "page-ref", [sym] + t1 + t),
            (lambda: M.fill_with_pattern(n(x), n(y), e1, e2, e3), "fill-with-pattern", [nm(x), nm(y)] + t1 + t2 + t3),
            (lambda: M.combine(e1, *a), "combine", t1 + t),
            (lambda: M.fraction(e1, *a), "fraction", t1 + t),
            (lambda: M.draw_circle(n(x), n(y), False), "draw-circle", [nm(x), nm(y), ("scm", ("bool", False))]),
            (lambda: M.arrow_head(n(x), n(y), True), "arrow-head", [nm(x), nm(y), ("scm", ("bool", True))]),
            (lambda: M.beam(n(x), n(y), n(z)), "beam", [nm(x), nm(y), nm(z)]),
            (lambda: M.general_align(n(x), n(y), *a), "general-align", [nm(x), nm(y)] + t),
            (lambda: M.put_adjacent(n(x), n(y), e1, *a), "put-adjacent", [nm(x), nm(y)] + t1 + t),
            (lambda: M.pattern(3, n(x), n(y), *a), "pattern", [("scm", ("num", 3, 10)), nm(x), nm(y)] + t),
            (lambda: M.if_(e1, *a), "if", t1 + t),
            (lambda: M.hspace(n(x)), "hspace", [nm(x)]),
            (lambda: M.backslashed_digit(5), "backslashed-digit", [("scm", ("num", 5, 10))]),
        ]
        f, cmd, toks = r.choice(cmds)
        if cmd == "fill-with-pattern":
            self.readable = False
        return f(), [("cmd", cmd)] + toks


def norm(toks):
    """Compare numbers by value."""
    def data(d):
        if d[0] == "num":
            return ("num", Fraction(d[1]))
        if d[0] in ("list", "vec"):
            return (d[0], [data(x) for x in d[1]])
        if d[0] == "quote":
            return d[:2] + (data(d[2]),)
        return d
    return [("scm", data(t[1])) if t[0] == "scm" else t for t in toks]


def case_markup(rng, mon):
    g = Mk(rng, mon)
    k = rng.randrange(6)
    if k == 0:
        items = [g.arg(2) for i in range(rng.randint(0, 3))]
        node = M.markuplist(*(a for a, _ in items))
        exp = [("cmd", "markuplist"), ("br", "{")] + [t for _, ts in items for t in ts] + [("br", "}")]
    else:
        a, t = g.args(3)
        node = M.markup(*a)
        exp = [("cmd", "markup")] + t
    doc = lily.Document(node)
    w = doc.write()
    got = tokens(w)
    mon.check(norm(got) == norm(exp), "markup", "markup function writes something else", written=w, expected=exp, got=got)
    if g.readable:
        r = read.lily_document(w)
        mon.check(sig(r) == sig(doc), "markup-reread", "constructed markup is read as another tree", written=w, diff=tree_diff(doc, r))
        mon.check(r.write() == w, "markup-stable", "constructed markup is written differently after reading", written=w, again=r.write())
        if k != 0 and rng.random() < .5:
            note = lily.Document(lily.MusicList(lily.Note("c", lily.Articulations(lily.Direction(1, node.copy())))))
            w2 = note.write()
            r2 = read.lily_document(w2)
            mon.check(sig(r2) == sig(note), "markup-note", "markup at a note is read as another tree", written=w2, diff=tree_diff(note, r2))
        mon.ev("markup reread")
    if g.cmds > 1:
        mon.nontrivial(w)
    mon.sample(w)


def case_score(rng, mon):
    """The \\score and \\score-lines functions."""
    g = TreeGen(rng)
    t, n = g.seq(1)
    items, text = [n], t
    if rng.random() < .5:
        a, b = g.layout(); text += " " + a; items.append(b)
    f, cmd = rng.choice(((M.score, "score"), (M.score_lines, "score-lines")))
    doc = lily.Document(M.markup(M.bold(f(*items))))
    exp = "\\markup \\bold \\%s { %s }" % (cmd, text)
    w = doc.write()
    mon.check(lytext.plain(w) == lytext.plain(exp), "score", "score in markup is written differently", written=w, expected=exp)
    r = read.lily_document(w)
    mon.check(sig(r) == sig(doc), "score-reread", "score in markup is read differently", written=w, diff=tree_diff(doc, r))
    mon.check(sig(read.lily_document(exp)) == sig(doc), "score-read", "score in markup: reading gives another tree", text=exp)
    mon.ev("markup score")
    mon.nontrivial(w)


# ---- small helpers ----

def datum(rng, depth=2):
    """(python value or element, own datum)"""
    k = rng.randrange(9 if depth else 6)
    if k == 0:
        v = rng.randint(-50, 500); return v, ("num", v, 10)
    if k == 1:
        v = rng.choice((.5, -2.25, 1e-3)); return v, ("num", v, 10)
    if k == 2:
        v = Fraction(rng.randint(-9, 9), rng.randint(2, 9)); return v, ("num", v, 10)
    if k == 3:
        v = rng.random() < .5; return v, ("bool", v)
    if k == 4:
        v = rng.choice(("", "x", "a\"b", "c\\d", "e f", "é")); return v, ("str", v)
    if k == 5:
        v = rng.choice(("foo", "list", "ly:x", "set!")); return scm.i(v), ("id", v)
    if k == 6:
        items = [datum(rng, depth - 1) for i in range(rng.randint(0, 3))]
        return [v for v, _ in items], ("list", [d for _, d in items])
    if k == 7:
        items = [datum(rng, depth - 1) for i in range(rng.randint(2, 3))]
        ds = [d for _, d in items]
        d = ("list", ds[:-1] + [("dot",)] + ds[-1:])
        return (scm.p(*(v for v, _ in items)) if rng.random() < .5 else tuple(v for v, _ in items)), d
    v, d = datum(rng, depth - 1)
    f, q = rng.choice(((scm.q, "'"), (scm.qq, "`"), (scm.uq, ",")))
    return f(v), ("quote", q, d)


def case_helpers(rng, mon):
    v, d = datum(rng, 3)
    n = scm.s(v)
    w = n.write()
    got = scmgen.read_all(w)
    mon.check(len(got) == 1 and norm([("scm", got[0])]) == norm([("scm", d)]), "scheme", "Scheme helper writes another value", written=w, expected=d, got=got)
    r = read.scm(w)
    mon.check(sig(r) == sig(n), "scheme-reread", "constructed Scheme is read as another tree", written=w)
    mon.ev("scheme helper")
    # durations from text
    log, dots = rng.randint(-3, 8), rng.randint(0, 3)
    t = {-3: "\\maxima", -2: "\\longa", -1: "\\breve"}.get(log) or str(2 ** log)
    value = sum((Fraction(2) ** -log / 2 ** i for i in range(dots + 1)), Fraction(0))
    t += "." * dots
    scaling = Fraction(1)
    for i in range(rng.choice((0, 0, 1, 2))):
        f = rng.choice(("2", "1/3", "3/4", "5"))
        t += "*" + f; scaling *= Fraction(f)
    dur = lily.Duration.from_string(t)
    mon.check(dur.duration() == (value, scaling), "duration", "Duration.from_string(%r) is %r" % (t, dur.duration()))
    dur2 = lily.Duration.from_duration(value, scaling)
    mon.check(sig(dur2) == sig(dur), "duration", "from_duration(%r, %r) differs from from_string(%r)" % (value, scaling, t))
    mon.check(lytext._scalings(dur.write()) == lytext._scalings(t), "duration", "Duration.from_string(%r) is written %r" % (t, dur.write()))
    mon.ev("duration string")
    # properties
    model, p = {}, Properties()
    for i in range(rng.randint(1, 8)):
        k = rng.choice(("unfold", "repeat_count", "x"))
        o = rng.randrange(4)
        if o == 0:
            model[k] = rng.choice((1, None, False, "s")); setattr(p, k, model[k])
        elif o == 1:
            model.pop(k, None); delattr(p, k)
        elif o == 2:
            add = {j: rng.randint(0, 3) for j in rng.sample(("unfold", "x", "y"), 2)}
            old = dict(model)
            q = p + Properties(**add)
            mon.check(vars(p) == old, "properties", "adding changed the operand")
            model = dict(model, **add); p = q
        else:
            p = Properties(**model)
        mon.check(vars(p) == model and bool(p) == bool(model) and all((j in p) == (j in model) and getattr(p, j) == model.get(j) for j in ("unfold", "repeat_count", "x", "y"))
                  and p == Properties(**model) and p != Properties(zz=1, **model), "properties", "Properties %r, expected %r" % (vars(p), model))
    mon.ev("properties")
    # invalid heads
    for f in (lambda: lily.Slur("begin"), lambda: lily.Note(lily.Octave(1)), lambda: lily.Break("x"), lambda: lily.Int("5"), lambda: lily.Fraction(5), lambda: lily.Direction(2), lambda: lily.Scheme("%")):
        try:
            f()
        except TypeError:
            mon.ev("invalid head")
        else:
            mon.fail("head", "an invalid head value was accepted")
    mon.nontrivial(w, t)
    mon.sample((w, t))


def case_add(rng, mon):
    """add() puts a child where the LilyPond syntax wants it."""
    octave = lambda: lily.Octave(rng.choice((-2, -1, 1, 2)))
    acc = lambda: lily.Accidental(rng.choice(("forced", "cautionary")))
    check = lambda: lily.OctCheck(rng.choice((-1, 0, 1)))
    dur = lambda: lily.Duration.from_string(rng.choice(("1", "4.", "8*2/3", "\\breve")))
    art = lambda: lily.Articulations(*(rng.choice((lambda: lily.Slur("start"), lambda: lily.Dynamic("ff"), lambda: lily.Fingering("1")))() for i in range(rng.randint(1, 2))))
    music = lambda: lily.MusicList(lily.Note("c", octave()), lily.Rest())
    text = lambda: rng.choice((lambda: lily.String("x y"), lambda: lily.Symbol("abc"), lambda: lily.Markup("markup", lily.MarkupWord("abc"))))()
    body = lambda: lily.ChordBody(lily.Note("c"), lily.Note("e"))
    pitched = (octave, acc, check, dur, art)
    name, make, order = rng.choice((
        ("note", lambda: lily.Note("c"), pitched), ("note", lambda: lily.Note("fis"), pitched),
        ("pitched rest", lambda: lily.PitchedRest("a"), (octave, acc, check, dur, lambda: lily.RestModifier(), art)),
        ("pitch", lambda: lily.Pitch("c"), (octave, acc, check)),
        ("rest", lambda: lily.Rest(), (dur, art)), ("space", lambda: lily.Space(), (dur, art)),
        ("multi rest", lambda: lily.MultiMeasureRest(), (dur, art)), ("q", lambda: lily.Q(), (dur, art)),
        ("skip", lambda: lily.Skip(), (dur,)), ("drum", lambda: lily.Drum("sn"), (dur, art)),
        ("unpitched", lambda: lily.Unpitched(), (dur, art)), ("chord", lambda: lily.Chord(), (body, dur, art)),
        ("lyric text", lambda: lily.LyricText("la"), (dur,)), ("lyric skip", lambda: lily.LyricSkip(), (dur,)),
        ("lyric item", lambda: lily.LyricItem(), (text, dur)),
        ("tempo", lambda: lily.Tempo(), (text, dur, lily.EqualSign, lambda: lily.Int(rng.randint(40, 200)))),
        ("tuplet", lambda: lily.Tuplet(), (lambda: lily.Fraction((3, 2)), dur, music)),
        ("figure", lambda: lily.Figure(), (lambda: lily.FigureBody(lily.FigureStep(6)), dur, art)),
    ))
    kids = [f() for f in order if rng.random() < .75]
    if not kids:
        return
    want = make()
    want.extend(k.copy() for k in kids)
    got = make()
    shuffled = list(kids)
    rng.shuffle(shuffled)
    if rng.random() < .3:
        # some are already there
        n = rng.randint(1, len(kids))
        there = [k for k in kids if any(k is x for x in shuffled[:n])]
        got.extend(there)
        shuffled = shuffled[n:]
    for k in shuffled:
        got.add(k)
        mon.check(k.parent is got, "add-parent", "add() does not set the parent")
    mon.check(sig(got) == sig(want) and got.write() == want.write(), "add", "add() puts a child of a %s at another place" % name,
              got=got.write(), expected=want.write(), added=[repr(k) for k in shuffled])
    # a node that has no place is appended
    extra = base.SinglelineComment(" x")
    got.add(extra)
    mon.check(got[-1] is extra, "add", "a comment is not added at the end", got=got.write())
    mon.ev("add " + name)
    if len(kids) > 1:
        mon.nontrivial("add", got.write(), tuple(repr(k) for k in shuffled))


STREAMS = {"add": Stream(case_add, 1200, 20000), "tree": Stream(case_tree, 2500, 100000), "markup": Stream(case_markup, 4000, 150000), "score": Stream(case_score, 400, 10000),
           "helpers": Stream(case_helpers, 2000, 60000)}
