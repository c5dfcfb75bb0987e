r"""C17: musical time."""
import posixpath
from fractions import Fraction

import parce
from quickly.dom import lily, read
from quickly.dom.scope import Scope
from quickly.lang import lilypond
from quickly.time import Time

from vt import refly
from vt.core import Stream
from vt.musgen import MusGen
from vt.muscheck import Doc, quiet

PROPERTY = "C17"
RULE = ("Generated documents (implicit durations, chords, rests, skips, q, tuplets, scaled and shifted durations, grace notes, after grace, "
        "repeats of every type with alternatives, simultaneous music, voices, tags, lyrics, chord mode, drums, figures, markup scores, "
        "variables, also in included documents) are read and the Time object is asked, in random order, for the length of and "
        "position of every piece of music, for the duration between pairs, and for the position at and duration of cursors in a live "
        "document. Every answer must be the rational number an independent evaluator of the text gives. "
        "Non-trivial: the time is not zero; distinct by text and question.")
ASSUMPTIONS = ["positions in the grace music of \\afterGrace and in the alternatives of an unfolded repeat are not judged, nor of the notes in a chord",
               "a skip, note or other music in an unfinished or invalid expression is not judged"]
NEED = ("length", "position", "position included", "duration", "duration negative", "other expression", "cursor position", "cursor in note",
        "cursor duration", "cursor at end", "cursor outside", "note", "chord", "rest", "skip", "q", "seq", "sim", "scaled", "shifted", "aftergrace", "repeat", "alternatives",
        "unfold alternatives", "ref", "undefined", "wrap", "mode", "relative", "transpose", "drum", "lyric", "figure", "markup score", "grace", "partcombine", "tag",
        "implicit", "zero", "nested scaling", "included variable", "included from other folder", "reference scaled", "built")


def mapping(tree, doc):
    """Return a list of (node, M)."""
    at = {}
    for m in doc.walk():
        at.setdefault(m.pos, m)
    out = []
    for n in tree.descendants():
        if isinstance(n, (lily.Music, lily.Reference)) and not isinstance(n, (lily.Pitch, lily.PipeSymbol)):
            out.append((n, at.get(n.pos)))
    return out


def tops(doc):
    """Return {m: top music m}."""
    out = {}
    def walk(m, top):
        out[m] = top
        for c in m.children:
            if c.kind == "score":
                for x in c.children:
                    walk(x, x)
            else:
                walk(c, top)
    def top(i):
        if i.kind == "block":
            for c in i.children: top(c)
        elif i.kind == "assign":
            for c in i.children: walk(c, c)
        else:
            walk(i, i)
    for i in doc.items:
        top(i)
    return out


def note_kinds(mon, m, nest=None):
    mon.ev(m.kind)
    if m.kind in refly.DURABLE and m.dur is None:
        mon.ev("implicit")
    if m.kind == "repeat" and m.alternatives is not None:
        mon.ev("alternatives" if m.rtype == "volta" else "unfold alternatives")
    if m.kind == "ref" and m.target is None:
        mon.ev("undefined")
    if m.kind == "scaled" and not m.scale:
        mon.ev("grace")
    if getattr(m, "tag", None):
        mon.ev("tag")


def gen(rng, **kw):
    g = MusGen(rng, lang="nederlands" if rng.random() < .7 else None, extra=("partcombine", "quote", "keep", "once", "undefined", "volta", "after"), unfold=True, **kw)
    text = g.document(rng.choice([1, 2, 2, 3, 4]))
    return text


class Case:
    def __init__(self, mon, text, doc, tree, time, offset=0):
        self.mon = mon
        self.text = text
        self.doc = doc
        self.tree = tree
        self.time = time
        self.t = refly.Timing(doc)
        self.tops = tops(doc)
        self.nodes = []
        self.at = {}
        shifted = {}
        for m in doc.walk():
            shifted.setdefault(m.pos - offset, m)
        for n in tree.descendants():
            if isinstance(n, (lily.Music, lily.Reference)) and not isinstance(n, (lily.Pitch, lily.PipeSymbol)):
                m = shifted.get(n.pos)
                if m is not None and m in self.t.length and self.t.length[m] is not None:
                    if any(isinstance(p, (lily.ChordBody, lily.StringTuning)) for p in n.ancestors()):
                        continue
                    self.nodes.append((n, m))
                    self.at[m] = n

    def bad(self, what, n, m, got, want, **kw):
        self.mon.fail(what, "%s of %r at %d is %r instead of %r" % (what, n, m.pos, got, want), text=self.text, **kw)

    def placed(self, m):
        return m in self.t.start and m not in self.t.unplaced

    def length(self, n, m):
        want = self.t.length[m]
        got = quiet(self.time.length, n)
        self.mon.ev("length")
        note_kinds(self.mon, m)
        if want:
            self.mon.nontrivial(self.text, m.pos, "l")
        else:
            self.mon.ev("zero")
        if got != want:
            self.bad("length", n, m, got, want)

    def position(self, n, m, include):
        if not self.placed(m):
            return
        want = self.t.start[m] + (self.t.length[m] if include else 0)
        got = quiet(self.time.position, n, include)
        self.mon.ev("position included" if include else "position")
        if want:
            self.mon.nontrivial(self.text, m.pos, "p", include)
        if self.tops[m] is not m or m.kind != "ref":
            if got.node.pos != self.at[self.tops[m]].pos if self.tops[m] in self.at else False:
                self.bad("topmost", n, m, got.node, self.tops[m])
        if getattr(self.tops[m], "score_music", False):
            self.mon.ev("markup score")
        if got.time != want:
            self.bad("position", n, m, got.time, want, include=include)

    def duration(self, a, b):
        (n1, m1), (n2, m2) = a, b
        if not self.placed(m1) or not self.placed(m2):
            return
        got = quiet(self.time.duration, n1, n2)
        if self.tops[m1] is not self.tops[m2]:
            self.mon.ev("other expression")
            if got is not None:
                self.bad("duration", n1, m1, got, None, end=m2.pos)
            return
        want = self.t.start[m2] + self.t.length[m2] - self.t.start[m1]
        self.mon.ev("duration")
        if want < 0: self.mon.ev("duration negative")
        if want: self.mon.nontrivial(self.text, m1.pos, m2.pos)
        if got is None or got.time != want:
            self.bad("duration", n1, m1, got, want, end=m2.pos)

    def ask(self, rng, n=60):
        if not self.nodes:
            return
        for i in range(n):
            k = rng.random()
            a = rng.choice(self.nodes)
            if k < .35: self.length(*a)
            elif k < .7: self.position(*a, rng.random() < .3)
            else: self.duration(a, rng.choice(self.nodes))


def mark_scores(doc):
    for m in doc.walk():
        for c in m.children:
            if c.kind == "score":
                for x in c.children:
                    x.score_music = True


def case_time(rng, mon):
    """Lengths, positions and durations."""
    text = gen(rng)
    doc = refly.parse(text)
    mark_scores(doc)
    c = Case(mon, text, doc, Doc(text).tree, Time())
    for m in doc.walk():
        if m.kind == "scaled" and any(x.kind == "scaled" for x in m.walk() if x is not m):
            mon.ev("nested scaling")
            break
    mon.sample(text)
    c.ask(rng)


def case_cursor(rng, mon):
    """Cursors in a live document."""
    text = gen(rng)
    doc = refly.parse(text)
    mark_scores(doc)
    d = parce.Document(lilypond.LilyPond.root, text, transformer=True)
    tree = quiet(d.get_transform, True)
    c = Case(mon, text, doc, tree, Time(wait=True))
    durables = [(n, m) for n, m in c.nodes if m.kind in refly.DURABLE and isinstance(n, lily.Durable) and c.placed(m)]
    got = quiet(c.time.cursor_position, parce.Cursor(d, len(text)))
    mon.ev("cursor outside")
    if got is not None:
        mon.fail("cursor position", "%r at the end of the document" % (got,), text=text)
    if not durables:
        return
    blocks = [(n, m) for n, m in c.nodes if isinstance(n, lily.MusicList) and m.kind in ("seq", "sim") and c.placed(m)
              and all(m.pos not in range(s[0], s[1]) for s in doc.durspans)]
    for i in range(25):
        n, m = rng.choice(durables)
        if blocks and rng.random() < .15:
            # before the closing bracket
            n, m = rng.choice(blocks)
            pos = n.end - (2 if n.tail == ">>" else 1)
            if not len(n) or pos <= n[-1].end:
                continue
            want = c.t.start[m] + c.t.length[m]
            got = quiet(c.time.cursor_position, parce.Cursor(d, pos))
            mon.ev("cursor at end")
            if want: mon.nontrivial(text, pos)
            if got is None or got.time != want:
                c.bad("cursor position", n, m, got, want, pos=pos)
        elif rng.random() < .5:
            pos = m.pos
            # any place in the whitespace before
            while pos and text[pos-1:pos] in (" ", "\n") and rng.random() < .5:
                pos -= 1
            if any(x.end is not None and pos <= x.end <= m.pos and x is not m for x in c.at if x.pos < pos):
                pos = m.pos
            inside = False
            if not m.children and rng.random() < .3:
                # in the duration
                s = [s for s in doc.durspans if s[2] is m]
                if s and s[0][0] > m.pos and m.kind != "chord":
                    pos = s[0][0]
                    inside = True
            got = quiet(c.time.cursor_position, parce.Cursor(d, pos))
            mon.ev("cursor in note" if inside else "cursor position")
            if c.t.start[m]: mon.nontrivial(text, pos)
            if got is None or got.time != c.t.start[m]:
                c.bad("cursor position", n, m, got, c.t.start[m], pos=pos)
        else:
            n2, m2 = rng.choice(durables)
            if m2.end is None or m.pos >= m2.end:
                continue
            got = quiet(c.time.cursor_duration, parce.Cursor(d, m.pos, m2.end))
            want = c.t.start[m2] + c.t.length[m2] - c.t.start[m] if c.tops[m] is c.tops[m2] else None
            mon.ev("cursor duration")
            if want is not None and want < 0:
                want = None
            if want: mon.nontrivial(text, m.pos, m2.end)
            if (got.time if got else None) != want:
                c.bad("cursor duration", n, m, got, want, end=m2.end)


def case_include(rng, mon):
    """Variables in an included document."""
    g = MusGen(rng, lang="nederlands", without=("language",), extra=("quote", "once", "volta", "after"))
    texts = []
    for i in range(rng.randint(1, 3)):
        name = "music" + "abc"[i]
        texts.append(name + " = " + g.seq(rng.choice([0, 1, 2]), False))
        g.vars.append(name)
    if rng.random() < .3:
        texts.append("aliased = \\" + rng.choice(g.vars))
        g.vars.append("aliased")
    first = "\n".join(texts) + "\n"
    second = ""
    if rng.random() < .4:
        # another file between
        second = "second = " + g.seq(1, False, 3) + "\n"
        if rng.random() < .5:
            second += rng.choice(["third = { c4 \\%s d }\n", "third = \\times 2/3 { c8 d \\%s }\n"]) % rng.choice(g.vars)
            g.vars.append("third")
        if rng.random() < .5:
            second += "other = \\" + rng.choice(g.vars) + "\n"
            g.vars.append("other")
        g.vars.append("second")
    # the included files are in other folders
    d1, d2 = rng.choice(["", "", "sub/", "../y/"]), rng.choice(["", "sub/", "deep/er/", "../"])
    main = "{ c4 " + rng.choice(["\\%s ", "\\%s ", "\\times 2/3 { \\%s d } ", "\\shiftDurations #1 #1 \\%s ", "\\grace \\%s "]) % rng.choice(g.vars) + " ".join(g.items(2, False, 4)) + " }\n" + ("\\score " + g.braces([g.seq(2, False)]) if rng.random() < .5 else "")
    f2 = posixpath.normpath("/x/z/" + d1 + "second.ly")
    f1 = posixpath.normpath(("/x/z/" + d1 if second else "/x/z/") + d2 + "first.ly")
    files = {"/x/z/main.ly": '\\include "%ssecond.ly"\n' % d1 + main if second else '\\include "%sfirst.ly"\n' % d2 + main,
             f1: first, f2: '\\include "%sfirst.ly"\n' % d2 + second}
    if d1 or d2: mon.ev("included from other folder")
    all = first + second + main
    doc = refly.parse(all)
    # no implicit duration that depends on another document
    starts = [len(first), len(first) + len(second)]
    for s in [0] + starts:
        ds = [m for m in doc.durables if m.pos >= s and m.kind != "skip"]
        if not ds or ds[0].dur is None:
            return
    docs = {}
    def factory(filename):
        if filename not in files:
            raise OSError(filename)
        if filename not in docs:
            docs[filename] = parce.Document(lilypond.LilyPond.root, files[filename], url=filename, transformer=True)
        return docs[filename]
    d = factory("/x/z/main.ly")
    tree = quiet(d.get_transform, True)
    mon.sample(all)
    c = Case(mon, all, doc, tree, Time(Scope(d, factory=factory), True), len(all) - len(files["/x/z/main.ly"]))
    for m in doc.walk():
        if m.kind == "scaled" and any(x.kind == "ref" for x in m.walk()):
            mon.ev("reference scaled")
    if any(m.kind == "ref" for n, m in c.nodes):
        mon.ev("included variable")
    c.ask(rng, 30)


def case_built(rng, mon):
    """Music without positions, from read.lily()."""
    g = MusGen(rng, lang="nederlands", without=("vars", "language"), extra=("partcombine", "quote", "once", "after"))
    text = g.seq(rng.choice([1, 2, 3]), False)
    doc = refly.parse(text)
    t = refly.Timing(doc)
    node = quiet(read.lily, text)
    if not isinstance(node, lily.MusicList) or "\\score" in text:
        return
    mon.ev("built")
    time = Time()
    # the children in order
    ms = doc.items[0].children
    want = [t.length[m] for m in ms if m.kind in refly.DURABLE]
    ns = [n for n in node if isinstance(n, lily.Durable) and not (isinstance(n, lily.Skip) and not n.duration)]
    order = list(range(len(ns)))
    rng.shuffle(order)
    got = [None] * len(ns)
    for i in order:
        got[i] = time.length(ns[i])
    if want and any(want): mon.nontrivial(text)
    if got != want:
        mon.fail("built", "lengths %r instead of %r" % (got, want), text=text)
    if time.length(node) != t.length[doc.items[0]]:
        mon.fail("built", "length %r instead of %r" % (time.length(node), t.length[doc.items[0]]), text=text)


STREAMS = {
    "time": Stream(case_time, 1500, 40000),
    "cursor": Stream(case_cursor, 700, 16000),
    "include": Stream(case_include, 500, 12000),
    "built": Stream(case_built, 500, 12000),
}
