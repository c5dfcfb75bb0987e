r"""C21: spanner ends find each other; events belong to the note they are written at."""
from vt.core import Stream
from vt.util import sig
from quickly.dom import base, element, lily, read

PROPERTY = "C21"
RULE = ("Stream spanners: generated music with slurs, phrasing slurs, beams, ligatures, text spanners, trills and melismas, with and "
        "without spanner ids (numbers, names, strings, Scheme), directions, tweaks and shapes around them, nested, crossing, "
        "unfinished, in repeats, graces, tuplets, chords, parallel voices, nested contexts, assignments, scores, markup scores and "
        "toplevel expressions. A reference matcher in the generator (a stack per voice, kind and id) tells which event belongs to "
        "which; Spanner.find_parallel() must return exactly that node, for both ends, also in a copy of the tree, in the tree read "
        "back from the written text, and after ends were removed; with a limit it may only be found or not. "
        "Stream events: notes, chords, inner chord notes, rests, pitched rests, spacers, drums, q, bare durations and chord-mode chords "
        "are written with all kinds of events, modifiers, octave checks, accidentals and durations, and comments in between; by "
        "position in the text, every event must be found under the note it was written at, in the written order, and "
        "nothing else. Non-trivial: documents with a matched pair, and notes with events; distinct by text.")
ASSUMPTIONS = ["starts and ends of the same kind and id in one voice are matched like parentheses in the order of the text; a start before an end on the same note is not generated",
               "without \\\\ the expressions in << >> are one voice",
               "a spanner id is a number, name, string or Scheme expression without comments"]
NEED = ("pair", "unfinished", "surplus end", "nested", "numbered", "crossing", "pair over voice", "pair over context", "blocked by voice",
        "blocked by context", "blocked by score", "toplevel expressions", "id with tweak", "direction", "melisma first", "removed end",
        "limit found", "limit not found", "copy", "reread",
        "event on note", "event on chord", "event on inner note", "event on rest", "event on pitched rest", "event on drum", "event on q",
        "event on bare duration", "event on chord mode", "event on space", "tweak", "comment between", "modifier", "duration", "octave check")

KINDS = {
    "Slur": ("(", ")"), "PhrasingSlur": ("\\(", "\\)"), "Beam": ("[", "]"), "Ligature": ("\\[", "\\]"),
    "TextSpanner": ("\\startTextSpan", "\\stopTextSpan"), "TrillSpanner": ("\\startTrillSpan", "\\stopTrillSpan"),
    "Melisma": ("\\melisma", "\\melismaEnd"),
}
IDS = ["1", "2", "12", "a", "foo", '"a b"', '"foo"', "#'x", "#1"]


class Gen:
    """Writes music with spanners; every event gets a voice (a list used as stack owner)."""
    def __init__(self, rng, mon):
        self.r, self.mon = rng, mon
        self.out = []
        self.events = []            # (kind, id, start?, voice)
        self.voices = 0
        self.parent = {}            # voice -> (parent voice, how)
        self.kinds = rng.sample(sorted(KINDS), rng.choice((1, 1, 2, 3)))
        self.ids = [None] + rng.sample(IDS, rng.choice((0, 1, 2)))
        if rng.random() < .2:
            self.ids = self.ids[1:] or [None]

    def w(self, *t):
        self.out += t

    def p(self, x):
        return self.r.random() < x

    def voice(self, parent, how):
        self.voices += 1
        self.parent[self.voices] = (parent, how)
        return self.voices

    def event(self, v, start, kind=None, bare=False):
        r = self.r
        kind = kind or r.choice(self.kinds)
        id = None if bare else r.choice(self.ids)
        text = KINDS[kind][0 if start else 1]
        pre = []
        if id is not None:
            pre.append("\\=%s" % id + (" " if self.p(.3) or id[0] == "#" else ""))
        if not bare:
            if self.p(.2) and kind in ("Slur", "PhrasingSlur"):
                pre.append(r.choice("^_-"))
                self.mon.ev("direction")
            if self.p(.15):
                pre.append(r.choice(("\\tweak color #red ", "\\tweak Slur.thickness #2 ", "\\tweak thickness 2 ")))
                if id is not None:
                    self.mon.ev("id with tweak")
            if self.p(.05) and kind in ("Slur", "PhrasingSlur"):
                pre.append("\\shape #'((0 . 0) (1 . 1)) ")
            if len(pre) > 1 and self.p(.6):
                r.shuffle(pre)
        if self.p(.2):
            self.w(" ")
        self.w(*pre)
        self.w(text)
        self.events.append((kind, id, start, v))

    def note(self, v, d):
        r = self.r
        self.w(r.choice("cdefgab") + r.choice(("", "", "'", ",", "4", "8.", "'2")))
        # on one note first the ends, then the starts
        ends = [k for k in self.kinds if self.p(.22)]
        for k in ends:
            self.event(v, False, k)
        if self.p(.1) and d > 0:
            self.markupscore(v, d)
        if self.p(.1):
            self.w(r.choice(("-.", "^>", "\\f", "-\\tweak color #red -.", "^\"(\"", "_\\markup { ( \\bold x ) }", ":32", "~")))
        for k in self.kinds:
            if self.p(.3):
                self.event(v, True, k)
                if self.p(.1):
                    self.event(v, True, k)
        self.w(" ")

    def markupscore(self, v, d):
        self.w("^\\markup \\score { ")
        self.music(self.voice(v, "score"), d - 1, "{", "}")
        self.w("} ")

    def music(self, v, d, o="{", c="}"):
        self.w(o, " ")
        self.items(v, d)
        self.w(c, " ")

    def items(self, v, d, n=None):
        for i in range(n or self.r.randrange(1, 6)):
            self.item(v, d)

    def item(self, v, d):
        r = self.r
        if d <= 0 or self.p(.7):
            return self.note(v, d)
        what = r.choice(("list", "repeat", "alternative", "grace", "tuplet", "simul", "voices", "new", "chord", "comment", "relative", "override", "aftergrace", "partcombine"))
        if what == "list":
            self.music(v, d - 1)
        elif what == "partcombine":
            self.w("\\partcombine ")
            for i in range(2):
                self.music(self.voice(v, "voice"), d - 1)
        elif what == "repeat":
            self.w("\\repeat volta 2 ")
            self.music(v, d - 1)
        elif what == "alternative":
            self.w("\\repeat volta 2 ")
            self.music(v, d - 1)
            self.w("\\alternative { ")
            for i in range(r.randrange(1, 3)):
                self.music(v, d - 1)
            self.w("} ")
        elif what == "grace":
            self.w(r.choice(("\\grace ", "\\acciaccatura ")))
            self.music(v, d - 1)
        elif what == "aftergrace":
            self.w("\\afterGrace ")
            self.note(v, 0)
            self.music(v, d - 1)
        elif what == "tuplet":
            self.w("\\tuplet 3/2 ")
            self.music(v, d - 1)
        elif what == "relative":
            self.w("\\relative c' ")
            self.music(v, d - 1)
        elif what == "simul":
            self.w("<< ")
            for i in range(r.randrange(1, 4)):
                if self.p(.3):
                    self.new(v, d)
                else:
                    self.music(v, d - 1)
            self.w(">> ")
        elif what == "voices":
            self.w("<< ")
            for i in range(r.randrange(2, 4)):
                if i:
                    self.w("\\\\ ")
                self.music(self.voice(v, "voice"), d - 1)
            self.w(">> ")
        elif what == "new":
            self.new(v, d)
        elif what == "chord":
            self.w("<c e g>", r.choice(("", "4")))
            if self.p(.5):
                self.event(v, False)
            if self.p(.5):
                self.event(v, True)
            self.w(" ")
        elif what == "comment":
            self.w(r.choice(("%{ ( %} ", "% ) (\n")))
        elif what == "override":
            self.w(r.choice(("\\override Slur.color = #red ", "\\set fontSize = #2 ", "\\once \\tweak color #red ", "\\slurUp ", "| ")))

    def new(self, v, d):
        self.w("\\new ", self.r.choice(("Voice ", "Staff ", "Voice = \"x\" ", "Staff \\with { fontSize = #2 } ")))
        self.music(self.voice(v, "context"), d - 1)

    def melisma(self, v):
        """Starts a melisma before the first note."""
        self.w("{ ")
        if "Melisma" in self.kinds and None in self.ids and self.p(.5):
            self.event(v, True, "Melisma", bare=True)
            self.w(" ")
            self.mon.ev("melisma first")
        self.items(v, 2)
        self.w("} ")

    def toplevel(self):
        r = self.r
        what = r.choice(("music", "music", "music", "assignment", "score", "book", "voices", "melisma", "partcombine", "relative"))
        if what == "music":
            self.music(self.voice(0, "toplevel"), 3)
        elif what == "relative":
            self.w("\\relative ")
            self.music(self.voice(0, "toplevel"), 3)
        elif what == "melisma":
            self.melisma(self.voice(0, "toplevel"))
        elif what == "assignment":
            self.w(r.choice(("music", "bmusic", "soprano")), " = ")
            self.music(self.voice(0, "assignment"), 3)
        elif what == "score":
            self.w("\\score { ")
            self.music(self.voice(0, "score"), 3)
            self.w(r.choice(("", "\\layout { } ", "\\header { title = \"(\" } ")), "} ")
        elif what == "book":
            self.w("\\book { ")
            if self.p(.5):
                self.w("\\bookpart { ")
                for i in range(r.randrange(1, 3)):
                    self.music(self.voice(0, "toplevel"), 2)
                self.w("} ")
            for i in range(r.randrange(1, 3)):
                self.music(self.voice(0, "toplevel"), 2)
            self.w("} ")
        elif what == "voices":
            self.w("<< ")
            for i in range(r.randrange(2, 4)):
                if i:
                    self.w("\\\\ ")
                self.music(self.voice(0, "voice"), 2)
            self.w(">> ")
        elif what == "partcombine":
            self.w(r.choice(("\\partCombine ", "\\partcombine ", "\\partcombine ", "\\new Staff \\partcombine ")))
            self.music(self.voice(0, "voice"), 2)
            self.music(self.voice(0, "voice"), 2)
        self.w("\n")

    def document(self):
        n = self.r.choice((1, 1, 2, 3))
        if self.p(.05):
            self.items(self.voice(0, "toplevel"), 0, 5)
        else:
            for i in range(n):
                self.toplevel()
        return "".join(self.out)


def match(events):
    """Return a list with for every event the index of the other end or None."""
    res = [None] * len(events)
    stacks = {}
    for i, (kind, id, start, v) in enumerate(events):
        stack = stacks.setdefault((kind, id, v), [])
        if start:
            stack.append(i)
        elif stack:
            j = stack.pop()
            res[i], res[j] = j, i
    return res


def spanners(tree):
    return [n for n in tree.descendants() if isinstance(n, lily.Spanner)]


def compare(mon, key, text, events, nodes, what):
    expect = match(events)
    mon.check(len(nodes) == len(events) and all(
            type(n).__name__ == k and n.head == ("start" if s else "stop") for n, (k, i, s, v) in zip(nodes, events)),
            key + ":events", "the spanner events in the tree are not those in the text (%s)" % what,
            text=text, expected=[e[:3] for e in events], found=[repr(n) for n in nodes])
    index = {id(n): i for i, n in enumerate(nodes)}
    for i, n in enumerate(nodes):
        p = n.find_parallel()
        got = None if p is None else index.get(id(p), "a node outside the tree")
        mon.check(got == expect[i], "%s:%s" % (key, "wrong" if expect[i] is not None else "none"),
            "spanner %d %r finds %r instead of %r (%s)" % (i, events[i][:3], got, expect[i], what),
            text=text, events=["%d %s %s %s" % (j, e[0], e[1], KINDS[e[0]][not e[2]]) for j, e in enumerate(events)])
    return expect


def observe(mon, g, expect):
    ev = g.events
    for i, j in enumerate(expect):
        kind, id, start, v = ev[i]
        if j is None:
            mon.ev("unfinished" if start else "surplus end")
            # is there a candidate that should not be found?
            for e in (ev[i+1:] if start else ev[:i]):
                if e[:2] == (kind, id) and e[2] != start and e[3] != v:
                    how = {g.parent[v][1], g.parent[e[3]][1]}
                    for h in how:
                        mon.ev({"voice": "blocked by voice", "context": "blocked by context", "score": "blocked by score"}.get(h, "toplevel expressions"))
                    break
        elif start:
            mon.ev("pair")
            if id is not None:
                mon.ev("numbered")
            inner = ev[i+1:j]
            if any(e[:2] == (kind, id) and e[3] == v for e in inner):
                mon.ev("nested")
            if any(e[:2] != (kind, id) and e[3] == v and expect[i+1+n] is not None and not i < expect[i+1+n] < j for n, e in enumerate(inner)):
                mon.ev("crossing")
            for e in inner:
                if e[:2] == (kind, id) and e[3] != v:
                    h = g.parent[e[3]][1]
                    mon.ev("pair over voice" if h == "voice" else "pair over context")


def spanner_case(rng, mon):
    g = Gen(rng, mon)
    text = g.document()
    tree = read.lily_document(text)
    nodes = spanners(tree)
    expect = compare(mon, "spanner", text, g.events, nodes, "as read")
    observe(mon, g, expect)
    if any(e is not None for e in expect):
        mon.nontrivial(text)
    total = sum(1 for n in tree.descendants())
    for i in rng.sample(range(len(nodes)), min(4, len(nodes))):
        node = nodes[i]
        other = nodes[expect[i]] if expect[i] is not None else None
        seen = False
        for limit in sorted({1, 2, rng.randrange(1, total + 1), rng.randrange(1, total + 1), total + 1}):
            p = node.find_parallel(limit)
            mon.check(p is None or p is other, "limit", "find_parallel(%d) returns %r instead of %r or None" % (limit, p, other), text=text)
            mon.check(not seen or p is other, "limit", "find_parallel(%d) does not find the end found with a smaller limit" % limit, text=text)
            if p is not None:
                seen = True
                mon.ev("limit found")
            elif other is not None:
                mon.ev("limit not found")
        mon.check(seen or other is None, "limit", "with a limit of all nodes the end is not found", text=text)
        if other is not None:
            # nodes in between, counted without any pruning, are always enough
            a, b = sorted((i, expect[i]))
            dist = 0
            for n in (node.forward() if node.head == "start" else node.backward()):
                dist += 1
                if n is other:
                    break
            mon.check(node.find_parallel(dist) is other, "limit", "find_parallel(%d) does not find the end that is %d nodes away" % (dist, dist), text=text)
    what = rng.randrange(3)
    if what == 0:
        mon.ev("copy")
        copy = tree.copy()
        compare(mon, "copy", text, g.events, spanners(copy), "copy")
    elif what == 1:
        mon.ev("reread")
        new = tree.write()
        tree2 = read.lily_document(new)     # nodes don't keep their parents alive
        compare(mon, "reread", new, g.events, spanners(tree2), "written and read back")
    elif nodes:
        # remove some ends
        gone = set(rng.sample(range(len(nodes)), rng.randrange(1, len(nodes) + 1) if len(nodes) < 4 else rng.randrange(1, 4)))
        for i in gone:
            nodes[i].parent.remove(nodes[i])
            mon.ev("removed end")
        compare(mon, "removed", text, [e for i, e in enumerate(g.events) if i not in gone],
                [n for i, n in enumerate(nodes) if i not in gone], "after removing ends")


# ------------------------------------------------------------- events

class EGen:
    """Writes notes with events and remembers where."""
    EVENTS = ["(", ")", "\\(", "\\)", "[", "]", "~", "\\f", "\\<", "\\!", "\\mf", "-.", "^>", "_-", "--", "-+", "-^", "-!", "-1", "_3", "^4",
              "\\fermata", "^\\trill", "\\glissando", "\\arpeggio", "\\laissezVibrer", "\\startTextSpan", "\\stopTrillSpan", "\\1", "\\3",
              "^\"text\"", "-\"(\"", "_\\markup { a ( b }", "^\\markup \\bold x", "\\noBeam", ":32", ":16", "\\rtoe", "\\repeatTie",
              "-\\tweak color #red ->", "\\tweak color #red (", "\\tweak Beam.thickness #2 [", "\\tweak color #red \\tweak thickness 2 \\(",
              "\\=1(", "\\=a)", "\\=\"x y\"^(", "\\=2_\\(", "\\tag #'a -.", "\\shape #'((0 . 0)) (", "^\\tweak color #red \\f", "\\\\sf"[1:]]
    FIRST = {"(": "Slur", ")": "Slur", "[": "Beam", "]": "Beam", "~": "Tie", "-": "Direction", "_": "Direction", "^": "Direction",
             "\\(": "PhrasingSlur", "\\)": "PhrasingSlur", "\\f": "Dynamic", "\\<": "Dynamic", "\\!": "Dynamic", "\\mf": "Dynamic", "\\sf": "Dynamic",
             ":": "Tremolo", "\\noBeam": "Modifier", "\\glissando": "Glissando", "\\arpeggio": "Arpeggio", "\\laissezVibrer": "LaissezVibrer",
             "\\repeatTie": "RepeatTie", "\\startTextSpan": "TextSpanner", "\\stopTrillSpan": "TrillSpanner", "\\fermata": "Articulation",
             "\\1": "Articulation", "\\2": "Articulation", "\\3": "Articulation", "\\rtoe": "Articulation", "\\=": "SpannerId", "\\tweak": "Tweak", "\\tag": "Tag", "\\shape": "Shape"}

    def __init__(self, rng, mon):
        self.r, self.mon = rng, mon
        self.out, self.pos = [], 0
        self.last = None
        self.mode = ""
        self.notes = []     # [kind, pos, [(event class, text pos)], duration?]

    def p(self, x):
        return self.r.random() < x

    def w(self, t):
        self.out.append(t)
        self.pos += len(t)

    def gap(self, need=False):
        if self.p(.08):
            self.w(self.r.choice((" %{ ( 4 %} ", " % -.\n", "\n")))
            self.mon.ev("comment between")
        elif need or self.p(.3):
            self.w(self.r.choice((" ", "  ", "\n")))

    def dur(self):
        self.mon.ev("duration")
        self.w(self.r.choice(("4", "8.", "2", "16", "1*3/4", "\\breve", "4..", "2*2")))

    def events(self, note, n, names=None):
        for i in range(n):
            e = self.r.choice(names or self.EVENTS)
            if self.mode == "chord":
                e = e.replace("^", "_")     # ^ and : are for chord modifiers
                if e[0] == ":":
                    e = "\\f"
            self.gap(need=self.out[-1][-1:].isalnum() or e[0] in ":\\")
            cls = next(self.FIRST[e[:k]] for k in range(len(e), 0, -1) if e[:k] in self.FIRST)
            note[2].append((cls, self.pos))
            if "tweak" in e:
                self.mon.ev("tweak")
            if e == "\\noBeam":
                self.mon.ev("modifier")
            self.w(e)

    def pitch(self, drum=False):
        r = self.r
        self.w(r.choice(("c", "d", "ees", "fis", "g", "a", "b")))
        octave = self.p(.5)
        if octave:
            self.w(r.choice(("'", ",", "''")))
        if self.p(.2):
            self.gap()
            self.w(r.choice("!?"))
        if self.p(.15):
            self.mon.ev("octave check")
            self.gap()
            self.w(r.choice(("=", "='", "=,,")))

    def add(self, kind):
        note = [kind, self.pos, [], False]
        self.notes.append(note)
        if kind != "inner note":
            self.last = note
        return note

    def count(self):
        return self.r.choice((0, 0, 1, 1, 2, 3, 5))

    def maybedur(self, note, x=.5):
        if self.p(x):
            self.gap()
            note[3] = True
            self.dur()

    def item(self, mode):
        r = self.r
        self.mode = mode
        if mode == "drum":
            kind = r.choice(("drum", "drum", "rest", "space"))
        elif mode == "chord":
            kind = r.choice(("chord mode", "chord mode", "rest", "space"))
        else:
            kind = r.choice(("note",) * 4 + ("chord",) * 3 + ("rest", "pitched rest", "space", "q", "bare", "mmr"))
        if kind == "bare" and not (self.last and (self.last[2] or self.last[3])):
            kind = "note"       # it would be the duration of the last note
        if kind == "bare":
            note = self.add(kind)
            note[3] = True
            self.dur()
            self.events(note, self.count() + 1)
        elif kind == "note":
            note = self.add(kind)
            self.pitch()
            self.maybedur(note)
            self.events(note, self.count())
        elif kind == "pitched rest":
            note = self.add(kind)
            self.w(r.choice("cdg"))
            self.maybedur(note)
            self.gap(True)
            self.w("\\rest")
            self.mon.ev("modifier")
            self.events(note, self.count())
        elif kind == "rest":
            note = self.add(kind)
            self.w("r")
            self.maybedur(note)
            self.events(note, self.count())
        elif kind == "mmr":
            note = self.add("rest")
            self.w("R1")
            note[3] = True
            self.events(note, self.count())
        elif kind == "space":
            note = self.add(kind)
            self.w("s")
            self.maybedur(note)
            self.events(note, self.count())
        elif kind == "q":
            note = self.add(kind)
            self.w("q")
            self.maybedur(note)
            self.events(note, self.count())
        elif kind == "drum":
            note = self.add(kind)
            self.w(r.choice(("bd", "sn", "hh", "bassdrum")))
            self.maybedur(note)
            self.events(note, self.count())
        elif kind == "chord mode":
            note = self.add(kind)
            self.w(r.choice("cdfg"))
            self.maybedur(note)
            for i in range(r.choice((0, 1, 1))):
                self.mon.ev("modifier")
                self.w(r.choice((":7", ":m7", ":maj7.9-", ":sus4", ":7^5", "/g", ":m/+b")))
            self.events(note, self.count(), ["^\"text\"", "-.", "\\f", "(", ")", "~", "_\\markup x", "\\tweak color #red (", "\\fermata"])
        elif kind == "chord":
            note = self.add(kind)
            self.w("<")
            for i in range(r.randrange(1, 4)):
                self.gap(need=i > 0)
                inner = self.add("inner note")
                self.pitch()
                self.events(inner, r.choice((0, 0, 1, 2)), ["-1", "_2", "\\2", "~", "-.", "\\tweak color #red -1", "-\\tweak color #red -.", "\\arpeggio",
                                                           "\\tweak color #red ~", "^\"x\"", "\\glissando"])
            self.gap()
            self.w(">")
            self.maybedur(note)
            self.events(note, self.count())
        self.w(r.choice((" ", " ", "\n", "  ", " | ", " %{ ( %} ")))

    def document(self):
        for i in range(self.r.choice((1, 1, 2))):
            mode = self.r.choice(("", "", "", "drum", "chord", "rel"))
            self.w({"": "{ ", "drum": "\\drummode { ", "chord": "\\chordmode { ", "rel": "\\relative c' { "}[mode])
            for i in range(self.r.randrange(1, 8)):
                self.item(mode)
            self.last = None
            self.w("}\n")
        return "".join(self.out)


CLASSES = {"note": lily.Note, "inner note": lily.Note, "chord": lily.Chord, "rest": (lily.Rest, lily.MultiMeasureRest), "pitched rest": lily.PitchedRest,
           "space": lily.Space, "q": lily.Q, "bare": lily.Unpitched, "drum": lily.Drum, "chord mode": lily.Note}
EV = {"note": "event on note", "inner note": "event on inner note", "chord": "event on chord", "rest": "event on rest", "pitched rest": "event on pitched rest",
      "space": "event on space", "q": "event on q", "bare": "event on bare duration", "drum": "event on drum", "chord mode": "event on chord mode"}


def position(node):
    """Text position of the first token of a node."""
    return min((n.pos for n in [node, *node.descendants()] if n.pos is not None), default=None)


def event_case(rng, mon):
    g = EGen(rng, mon)
    text = g.document()
    tree = read.lily_document(text, True)
    notes = [n for n in tree.descendants() if isinstance(n, lily.Durable)
             and not any(isinstance(a, (lily.Relative, lily.Inversion)) and n in a[:1] for a in n.ancestors())]
    notes = [n for n in notes if not isinstance(n.parent, lily.Relative)]
    expect = g.notes
    show = ["%d %s %s" % (e[1], e[0], e[2]) for e in expect]
    mon.check(len(notes) == len(expect), "notes", "the tree has %d notes, %d were written" % (len(notes), len(expect)),
                     text=text, notes=show, tree=[repr(n) for n in notes])
    for node, (kind, pos, events, dur) in zip(notes, expect):
        mon.check(isinstance(node, CLASSES[kind]) and position(node) == pos, "kind", "%r at %s is not the %s at %d" % (node, position(node), kind, pos), text=text)
        has = any(isinstance(c, lily.Duration) for c in node)
        mon.check(has == dur, "duration", "%r at %d: duration %s, written: %s" % (node, pos, has, dur), text=text)
        arts = [c for c in node if isinstance(c, lily.Articulations)]
        got = [(type(c).__name__, position(c)) for a in arts for c in a if not isinstance(c, base.Comment)]
        mon.check(len(arts) == bool(events), "articulations", "%r at %d has %d Articulations nodes" % (node, pos, len(arts)), text=text)
        mon.check(got == events, "events:" + kind, "%s at %d has events %s, written: %s" % (kind, pos, got, events), text=text, tree=sig(node))
        if events:
            mon.ev(EV[kind], len(events))
            mon.nontrivial(text)


STREAMS = {
    "spanners": Stream(spanner_case, 2500, 40000),
    "events": Stream(event_case, 2500, 40000),
}
