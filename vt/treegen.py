r"""Random LilyPond fragments as pairs: the text, and the tree built by hand.

The text is written here from the LilyPond syntax, the tree with the
constructors of the element classes, from their documentation; none of the
two is derived from the other with the library.
"""
from fractions import Fraction as F

from quickly.dom import lily as L, scm as S

NAMES = ["c", "d", "e", "f", "g", "a", "b", "cis", "es", "fis", "bes", "aes", "gisis", "deses", "as", "eeh", "fih"]
DURS = {"4": F(1, 4), "1": F(1), "2.": F(3, 4), "8": F(1, 8), "16": F(1, 16), "8..": F(7, 32), "\\breve": F(2), "\\longa": F(4), "\\maxima": F(8), "\\breve.": F(3), "32": F(1, 32), "128": F(1, 128), "4...": F(15, 32)}
WORDS = ["violin", "Solo", "x", "upper", "two words", "é", "a\\b", "q\"t", "", "1a", "%no", "{", "c4", "a#b"]
SYMS = ["foo", "music", "violin", "Cello", "myVar", "lowerStaff"]
SCRIPTS = ["staccato", "accent", "fermata", "trill", "prall", "turn", "marcato", "upbow", "segno", "coda", "tenuto"]
ABBR = [".", "-", ">", "^", "_", "!", "+"]
DYN = ["f", "ff", "p", "mp", "sfz", "fp", "n", "cresc", "decresc", "dim"]
SPAN = (("(", ")", L.Slur), ("\\(", "\\)", L.PhrasingSlur), ("[", "]", L.Beam), ("\\[", "\\]", L.Ligature),
        ("\\startTextSpan", "\\stopTextSpan", L.TextSpanner), ("\\startTrillSpan", "\\stopTrillSpan", L.TrillSpanner))
TOGGLES = [("autoBeam", "On", "Off"), ("cadenza", "On", "Off"), ("easyHeads", "On", "Off"), ("sustain", "On", "Off"), ("slurSolid",)]


def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class TreeGen:
    def __init__(self, rng, comments=.04):
        self.r = rng
        self.used = set()
        self.comments = comments

    def p(self, x): return self.r.random() < x
    def c(self, *a): return self.r.choice(a)
    def u(self, name): self.used.add(name)

    # -- parts
    def octave(self):
        n = self.r.choice((0, 0, 0, 1, 1, 2, -1, -2, 3))
        t = "'" * n if n > 0 else "," * -n
        return t, ([L.Octave(n)] if n else [])

    def duration(self, scaling=True):
        t = self.r.choice(list(DURS))
        v = DURS[t]
        kids = []
        if scaling and self.p(.15):
            k = self.r.randrange(3)
            if k == 0:
                n = self.r.randint(2, 9); t += "*%d" % n; kids = [L.DurationScaling(n)]
            elif k == 1:
                n, d = self.c((2, 3), (3, 4), (1, 2), (5, 3)); t += "*%d/%d" % (n, d); kids = [L.DurationScaling(F(n, d))]
            else:
                t += "*2*3/4"; kids = [L.DurationScaling(F(3, 2))]
            self.u("scaling")
        return t, L.Duration(v, *kids)

    def dur(self, prob=.6):
        if self.p(prob):
            t, d = self.duration()
            return t, [d]
        return "", []

    def string(self):
        s = self.r.choice(WORDS)
        return esc(s), L.String(s)

    def symstr(self):
        """A string or a name."""
        if self.p(.5):
            s = self.r.choice(SYMS)
            return s, L.Symbol(s)
        s = self.r.choice(SYMS + ["a b"])
        return esc(s), L.String(s)

    def scheme(self):
        k = self.r.randrange(9)
        H = lambda n: L.Scheme("#", n)
        if k == 0: return "##t", H(S.Bool(True))
        if k == 1: return "##f", H(S.Bool(False))
        if k == 2:
            n = self.r.randint(-9, 99)
            return "#%d" % n, H(S.Number(n))
        if k == 3: return "#'sym", H(S.q(S.i("sym")))
        if k == 4: return "#red", H(S.i("red"))
        if k == 5: return "#'(1 . -2.5)", H(S.q((1, -2.5)))
        if k == 6: return "#(list 1 2/3 \"a\")", H(S.List(S.i("list"), S.s(1), S.s(F(2, 3)), S.s("a")))
        if k == 7: return "#\"str ing\"", H(S.s("str ing"))
        return "#`(a ,b)", H(S.qq([S.i("a"), S.uq(S.i("b"))]))

    def pitch(self):
        n = self.r.choice(NAMES)
        o, k = self.octave()
        return n + o, L.Pitch(n, *k)

    def event(self):
        k = self.r.randrange(18)
        if k == 17:
            self.u("modifier")
            return self.c(("\\~", L.PesOrFlexa()), ("\\noBeam", L.Modifier("noBeam")))
        if k == 0:
            d, v = self.c(("-", 0), ("^", 1), ("_", -1)); a = self.r.choice(ABBR)
            return d + a, L.Direction(v, L.Articulation(a))
        if k == 1:
            a = self.r.choice(SCRIPTS)
            if self.p(.5):
                return "\\" + a, L.Articulation("\\" + a)
            d, v = self.c(("-", 0), ("^", 1), ("_", -1))
            return d + "\\" + a, L.Direction(v, L.Articulation("\\" + a))
        if k == 2:
            d = self.r.choice(DYN)
            return "\\" + d, L.Dynamic(d)
        if k == 3:
            d = self.c("<", ">", "!")
            return "\\" + d, L.Dynamic(d)
        if k == 4:
            d, v = self.c(("-", 0), ("^", 1), ("_", -1)); t, s = self.string()
            return d + t, L.Direction(v, s)
        if k == 5:
            d, v = self.c(("-", 0), ("^", 1), ("_", -1)); t, m = self.markup()
            return d + t + " ", L.Direction(v, m)
        if k == 6:
            a, b, cls = self.r.choice(SPAN)
            w = self.r.randrange(2)
            ev = cls(("start", "stop")[w])
            t = (a, b)[w]
            if cls in (L.Slur, L.PhrasingSlur) and self.p(.25):
                i = self.r.randint(1, 9)
                self.u("spanner id")
                return "\\=%d%s" % (i, t), L.SpannerId(L.Int(i), ev)
            if cls in (L.Slur, L.PhrasingSlur) and w == 0 and self.p(.3):
                d, v = self.c(("^", 1), ("_", -1))
                return d + t, L.Direction(v, ev)
            return t, ev
        if k == 7: return "~", L.Tie()
        if k == 8: return "\\laissezVibrer", L.LaissezVibrer()
        if k == 9: return "\\repeatTie", L.RepeatTie()
        if k == 10: return "\\arpeggio", L.Arpeggio()
        if k == 11: return "\\glissando", L.Glissando()
        if k == 12:
            d, v = self.c(("-", 0), ("^", 1), ("_", -1)); n = self.r.randint(1, 5)
            return "%s%d" % (d, n), L.Direction(v, L.Fingering(str(n)))
        if k == 13:
            n = self.c(8, 16, 32)
            return ":%d" % n, L.Tremolo(L.Duration(F(1, n)))
        if k == 14:
            t, s = self.scheme()
            self.u("tweak")
            return "\\tweak color " + t + " -.", None, [L.Tweak(L.Symbol("color"), s, L.Direction(0, L.Articulation(".")))]
        if k == 15:
            self.u("string number")
            n = self.r.randint(1, 6)
            return "\\%d" % n, L.Articulation("\\%d" % n)
        return self.c(("\\melisma", L.Melisma("start")), ("\\melismaEnd", L.Melisma("stop")))

    def events(self, prob=.35):
        text, kids = "", []
        while self.p(prob):
            e = self.event()
            text += (" " if self.p(.2) or e[0][0] == "\\" and self.p(.4) else "") + e[0]
            kids += e[2] if e[1] is None else [e[1]]
            # a word must not follow a command directly
            if text[-1].isalpha():
                text += " "
        self.u("events") if kids else None
        return text, ([L.Articulations(*kids)] if kids else [])

    # -- music
    def note(self, inchord=False):
        n = self.r.choice(NAMES)
        o, kids = self.octave()
        text = n + o
        if self.p(.12):
            a, v = self.c(("!", "forced"), ("?", "cautionary"))
            text += a; kids.append(L.Accidental(v))
            self.u("accidental")
        if self.p(.08):
            k = self.r.randint(-2, 2)
            text += "=" + ("'" * k if k > 0 else "," * -k); kids.append(L.OctCheck(k))
            self.u("octave check")
        if inchord:
            if self.p(.15):
                k = self.r.randint(1, 5)
                return text + "-%d" % k, L.Note(n, *kids, L.Articulations(L.Direction(0, L.Fingering(str(k)))))
            return text, L.Note(n, *kids)
        t, d = self.dur()
        if self.p(.05):
            self.u("pitched rest")
            return text + t + "\\rest", L.PitchedRest(n, *kids, *d, L.RestModifier())
        e, ev = self.events()
        return text + t + e, L.Note(n, *kids, *d, *ev)

    def rest(self):
        t, d = self.dur()
        e, ev = self.events(.12)
        x, cls = self.c(("r", L.Rest), ("R", L.MultiMeasureRest), ("s", L.Space), ("q", L.Q))
        self.u("rest")
        return x + t + e, cls(*d, *ev)

    def skip(self):
        t, d = self.duration()
        self.u("skip")
        return "\\skip " + t, L.Skip(d)

    def bare(self):
        t, d = self.duration()
        e, ev = self.events(.2)
        self.u("bare duration")
        return t + e, L.Unpitched(d, *ev)

    def chord(self):
        ns = [self.note(True) for i in range(self.r.randint(1, 4))]
        t, d = self.dur()
        e, ev = self.events()
        self.u("chord")
        sp = self.c("", " ")
        return "<" + sp + " ".join(x for x, _ in ns) + sp + ">" + t + e, L.Chord(L.ChordBody(*(n for _, n in ns)), *d, *ev)

    def seq(self, depth, n=None):
        items = self.items(depth, n)
        return "{ " + " ".join(t for t, _ in items) + " }", L.MusicList(*(e for _, e in items))

    def sim(self, depth):
        self.u("simultaneous")
        if self.p(.4):
            a, b = self.seq(depth), self.seq(depth)
            return "<< %s \\\\ %s >>" % (a[0], b[0]), L.SimultaneousMusicList(a[1], L.VoiceSeparator(), b[1])
        items = [self.seq(depth) for i in range(self.r.randint(1, 3))]
        return "<< " + " ".join(t for t, _ in items) + " >>", L.SimultaneousMusicList(*(e for _, e in items))

    def items(self, depth, n=None):
        out = []
        if self.p(.05):
            out.append(self.bare())
        for i in range(self.r.randint(0, 6) if n is None else n):
            if self.p(self.comments):
                out.append(self.comment())
            text, node = self.item(depth)
            if isinstance(node, L.Scheme) and next((t for t, _ in reversed(out) if t[0] != "%"), "").startswith(("\\revert", "\\unset", "\\omit", "\\hide", "\\once", "\\temporary", "\\undo", "\\tempo")):
                # a Scheme expression can be an argument of the preceding command
                continue
            out.append((text, node))
        return out

    def comment(self):
        self.u("comment")
        if self.p(.5):
            s = self.c(" hi", "", " { c", "x % y", " \"")
            return "%" + s + "\n", L.SinglelineComment(s)
        s = self.c(" hi ", "", " { c \n ", "x % y", " \" ")
        return "%{" + s + "%}", L.MultilineComment(s)

    def item(self, depth):
        k = self.r.random()
        if k < .45: return self.note()
        if k < .52: return self.rest()
        if k < .60: return self.chord()
        if k < .62: return self.skip()
        if k < .80 or depth <= 0: return self.command()
        return self.expr(depth - 1)

    def path(self):
        a, b = self.c(("Staff", "instrumentName"), ("NoteHead", "color"), ("Stem", "thickness"), ("Score", "tempoHideNote"))
        if self.p(.3):
            return "Voice.%s.%s" % (a, b), L.List(L.Symbol("Voice"), L.Separator("."), L.Symbol(a), L.Separator("."), L.Symbol(b))
        return "%s.%s" % (a, b), L.List(L.Symbol(a), L.Separator("."), L.Symbol(b))

    def oldpath(self):
        """A path for \\override or \\revert in old syntax: text and nodes."""
        if self.p(.5):
            a, b = self.path()
            return a, (b,)
        t, n = self.c(("NoteHead", L.Symbol("NoteHead")), ("Staff.Stem", L.List(L.Symbol("Staff"), L.Separator("."), L.Symbol("Stem"))))
        n = (n,)
        for i in range(self.r.choice((1, 1, 2, 3, 4))):
            x = self.r.choice(("color", "bound-details", "left", "padding"))
            if i == 0 and self.p(.2):
                t += " #'(%s details)" % x
                n += L.Scheme("#", S.q(S.List(S.i(x), S.i("details")))),
                break
            t += " #'" + x
            n += L.Scheme("#", S.q(S.i(x))),
        self.u("old syntax")
        return t, n

    def value(self):
        k = self.r.randrange(4)
        if k == 0: return self.scheme()
        if k == 1: return self.string()
        if k == 2:
            n = self.r.randint(0, 40)
            return str(n), L.Int(n)
        return self.c(("1.5", L.Float(1.5)), ("0.25", L.Float(.25)))

    def command(self):
        k = self.r.randrange(30)
        S_ = lambda s: L.String(s)
        self.u("command %d" % k)
        if k == 0:
            m = self.c("major", "minor", "dorian", "phrygian", "lydian", "mixolydian", "aeolian", "locrian", "ionian")
            n = self.r.choice(NAMES)
            return "\\key %s \\%s" % (n, m), L.Key(L.Pitch(n), L.Mode(m))
        if k == 1:
            n, d = self.c((4, 4), (3, 4), (6, 8), (2, 2), (12, 16))
            if self.p(.2):
                a, b = self.c(("2,3", L.List(L.Int(2), L.Separator(","), L.Int(3))), ("#'(2 3)", L.Scheme("#", S.q(S.List(S.s(2), S.s(3))))))
                self.u("time list")
                return "\\time %s %d/%d" % (a, n, d), L.Time(b, L.Fraction((n, d)))
            return "\\time %d/%d" % (n, d), L.Time(L.Fraction((n, d)))
        if k == 2:
            s = self.c("treble", "bass", "alto", "treble_8")
            if s.isalpha() and self.p(.5):
                return "\\clef " + s, L.Clef(L.Symbol(s))
            return "\\clef " + esc(s), L.Clef(S_(s))
        if k == 3:
            t, d = self.duration()
            return "\\partial " + t, L.Partial(d)
        if k == 4:
            kids, text = [], "\\tempo"
            which = self.r.randrange(3)
            if which != 1:
                t, s = self.c(self.string(), self.markup())
                text += " " + t; kids.append(s)
            if which != 0:
                t, d = self.duration(False); n = self.r.randint(30, 200)
                text += " %s = %d" % (t, n); kids += [d, L.EqualSign(), L.Int(n)]
            return text, L.Tempo(*kids)
        if k == 5:
            return self.c(("\\mark \\default", L.Mark(L.Default())), ("\\mark 3", L.Mark(L.Int(3))), ("\\mark 1", L.Mark(L.Int(1))), ("\\mark 4", L.Mark(L.Int(4))), ("\\mark #4", L.Mark(L.Scheme("#", S.Number(4)))), ("\\mark \"A\"", L.Mark(S_("A"))))
        if k == 6:
            s = self.c("|.", "||", ":|.", "")
            return "\\bar " + esc(s), L.Bar(S_(s))
        if k == 7: return "|", L.PipeSymbol()
        if k == 8: return self.c(("\\break", L.Break(True)), ("\\noBreak", L.Break(False)), ("\\pageBreak", L.PageBreak(True)), ("\\noPageBreak", L.PageBreak(False)), ("\\pageTurn", L.PageTurn("yes")), ("\\noPageTurn", L.PageTurn("no")), ("\\allowPageTurn", L.PageTurn("allow")))
        if k == 9: return "\\breathe", L.Breathe()
        if k == 10: return "\\inStaffSegno", L.InStaffSegno()
        if k == 11:
            a, b = self.path(); v, w = self.value()
            n, cls = self.c(("\\override", L.Override), ("\\set", L.Set))
            if cls is L.Override:
                a, b = self.oldpath()
                return "%s %s = %s" % (n, a, v), cls(*b, L.EqualSign(), w)
            return "%s %s = %s" % (n, a, v), cls(b, L.EqualSign(), w)
        if k == 12:
            a, b = self.path()
            n, cls = self.c(("\\revert", L.Revert), ("\\unset", L.Unset), ("\\omit", L.Omit), ("\\hide", L.Hide))
            if cls is L.Revert:
                a, b = self.oldpath()
                return n + " " + a, cls(*b)
            return n + " " + a, cls(b)
        if k == 13:
            s = self.c("Staff", "Voice"); n = self.r.choice(SYMS)
            return "\\change %s = %s" % (s, esc(n)), L.Change(L.Symbol(s), L.EqualSign(), S_(n))
        if k == 14:
            n = self.r.choice(SYMS)
            return "\\" + n, L.IdentifierRef(n)
        if k == 15:
            n = self.r.choice(SYMS)
            return "\\%s.sub.2" % n, L.IdentifierRef(n, L.Separator("."), L.Symbol("sub"), L.Separator("."), L.Int(2))
        if k == 16:
            i = self.r.randint(1, 6)
            return "\\voice" + ("One", "Two", "Three", "Four", "Five", "Six")[i - 1], L.VoiceN(i)
        if k == 17:
            g = self.c("stem", "slur", "tie", "dots", "phrasingSlur", "tuplet", "dynamic")
            d, v = self.c(("Up", 1), ("Down", -1), ("Neutral", 0))
            return "\\" + g + d, L.GrobDirection((g[0].upper() + g[1:], v))
        if k == 18:
            g = self.c("slur", "tie", "phrasingSlur"); s, v = self.c(("Dashed", "dashed"), ("Dotted", "dotted"), ("Solid", "solid"), ("HalfDashed", "half_dashed"), ("HalfSolid", "half_solid"))
            return "\\" + g + s, L.GrobStyle((g[0].upper() + g[1:], v))
        if k == 19:
            n = self.c("autoBeam", "cadenza", "easyHeads", "autoBreaks"); s, v = self.c(("On", True), ("Off", False))
            return "\\" + n + s, L.Toggle((n, v))
        if k == 20:
            t, p = self.pitch()
            return "\\octaveCheck " + t, L.OctaveCheck(p)
        if k == 21:
            t, p = self.pitch()
            return "\\transposition " + t, L.Transposition(p)
        if k == 22:
            n = self.r.randint(-2, 2)
            if n < 0:
                return "\\ottava #%d" % n, L.Ottava(L.Scheme("#", S.Number(n)))
            return "\\ottava %d" % n, L.Ottava(L.Int(n))
        if k == 23:
            n = self.r.choice(SYMS)
            return "\\label #'" + n, L.Label(L.Scheme("#", S.q(S.i(n))))
        if k == 24:
            return self.scheme()
        if k == 25:
            n, cls = self.c(("\\once", L.Once), ("\\temporary", L.Temporary), ("\\undo", L.Undo))
            a, b = self.path()
            if self.p(.5): return n + " \\omit " + a, cls(L.Omit(b))
            if cls is L.Undo: return n + " \\hide " + a, cls(L.Hide(b))
            v, w = self.scheme()
            return n + " \\override " + a + " = " + v, cls(L.Override(b, L.EqualSign(), w))
        if k == 26:
            g = self.c("slur", "tie", "phrasingSlur")
            return "\\" + g + "DashPattern 0.7 0.5", L.GrobDashPattern(g[0].upper() + g[1:], L.Float(.7), L.Float(.5))
        if k == 27:
            t, s = self.scheme()
            n, cls = self.c(("\\applyContext", L.ApplyContext), ("\\shape", None), ("\\vshape", None), ("\\tagGroup", L.TagGroup), ("\\applyOutput", L.ApplyOutput))
            if cls is L.ApplyOutput:
                a, b = self.c(self.path(), ("Staff", L.Symbol("Staff")), ("#'Staff", L.Scheme("#", S.q(S.i("Staff")))))
                return "%s %s %s" % (n, a, t), cls(b, s)
            if cls: return n + " " + t, cls(s)
            t, s = "#'((0 . 1))", L.Scheme("#", S.q([(0, 1)]))
            x = self.c(L.Symbol("Slur"), L.List(L.Symbol("Staff"), L.Separator("."), L.Symbol("Slur")))
            return n + " " + t + " " + x.write(), (L.Shape if n == "\\shape" else L.VShape)(s, x)
        if k == 28:
            t, s = self.string()
            return "\\addQuote " + t + " { c }", L.AddQuote(s, L.MusicList(L.Note("c")))
        return "\\stringTuning <c e g>", L.StringTuning(L.Chord(L.ChordBody(L.Note("c"), L.Note("e"), L.Note("g"))))

    def arg(self, depth):
        """A music argument."""
        if self.p(.6): return self.seq(depth)
        self.u("single argument")
        k = self.r.randrange(6)
        if k == 0: return self.chord()
        if k == 1:
            t, n = self.rest()
            if t[0] != "q": return t, n     # parce does not know q at toplevel
        if k == 2: return self.sim(depth)
        if k == 3: return "\\music", L.IdentifierRef("music")
        return self.note()

    def expr(self, depth):
        k = self.r.randrange(28)
        self.u("expr %d" % k)
        if k == 0:
            t, n = self.seq(depth)
            if self.p(.6):
                a, b = self.pitch()
                return "\\relative %s %s" % (a, t), L.Relative(b, n)
            return "\\relative " + t, L.Relative(n)
        if k == 1:
            t, n = self.arg(depth); a, b = self.pitch()
            return "\\fixed %s %s" % (a, t), L.Fixed(b, n)
        if k == 2:
            t, n = self.arg(depth)
            return "\\absolute " + t, L.Absolute(n)
        if k == 3:
            t, n = self.arg(depth); a, b = self.pitch(); e, f = self.pitch()
            return "\\transpose %s %s %s" % (a, e, t), L.Transpose(b, f, n)
        if k == 4:
            t, n = self.arg(depth); w = self.c("volta", "unfold", "percent", "tremolo"); i = self.r.randint(2, 8)
            text, kids = "\\repeat %s %d %s" % (w, i, t), [L.Symbol(w), L.Int(i), n]
            if self.p(.4) and w in ("volta", "unfold"):
                a, b = self.seq(depth), self.seq(depth)
                text += " \\alternative { %s %s }" % (a[0], b[0])
                kids.append(L.Alternative(L.MusicList(a[1], b[1])))
            return text, L.Repeat(*kids)
        if k == 5:
            t, n = self.arg(depth); a, b = self.c((3, 2), (5, 4), (6, 4))
            if self.p(.4):
                x, d = self.duration(False)
                return "\\tuplet %d/%d %s %s" % (a, b, x, t), L.Tuplet(L.Fraction((a, b)), d, n)
            return "\\tuplet %d/%d %s" % (a, b, t), L.Tuplet(L.Fraction((a, b)), n)
        if k == 6:
            t, n = self.arg(depth)
            return "\\times 2/3 " + t, L.Times(L.Fraction((2, 3)), n)
        if k == 7:
            t, n = self.c(self.seq(depth), self.note())
            c, cls = self.c(("grace", L.Grace), ("acciaccatura", L.Acciaccatura), ("appoggiatura", L.Appoggiatura), ("slashedGrace", L.SlashedGrace))
            return "\\%s %s" % (c, t), cls(n)
        if k == 8:
            a, b = self.note(), self.seq(depth)
            return "\\afterGrace %s %s" % (a[0], b[0]), L.AfterGrace(a[1], b[1])
        if k == 9: return self.sim(depth)
        if k == 10: return self.seq(depth)
        if k == 11:
            c, cls = self.c(("\\new", L.New), ("\\context", L.Context))
            s = self.c("Staff", "Voice", "PianoStaff", "Lyrics")
            text, kids = c + " " + s, [L.Symbol(s)]
            if self.p(.5):
                t, n = self.symstr()
                text += " = " + t; kids += [L.EqualSign(), n]
            if self.p(.4):
                t, n = self.with_(); text += " " + t; kids.append(n)
            t, n = self.c(self.seq(depth), self.sim(depth), ("\\music", L.IdentifierRef("music")))
            return text + " " + t, cls(*kids, n)
        if k == 12:
            t, n = self.arg(depth)
            return "\\unfoldRepeats " + t, L.UnfoldRepeats(n)
        if k == 13:
            t, n = self.arg(depth); s = self.c("solo", "part")
            c, cls = self.c(("tag", L.Tag), ("keepWithTag", L.KeepWithTag), ("removeWithTag", L.RemoveWithTag))
            if cls is L.Tag and type(n) is L.IdentifierRef:
                t, n = self.note()      # could also be an event, that belongs to the note before
            if self.p(.5):
                return "\\%s #'%s %s" % (c, s, t), cls(L.Scheme("#", S.q(S.i(s))), n)
            return "\\%s %s %s" % (c, s, t), cls(L.Symbol(s), n)
        if k == 14: return self.lyricmode()
        if k == 15: return self.drummode()
        if k == 16: return self.chordmode()
        if k == 17: return self.figuremode()
        if k == 18:
            t, n = self.arg(depth)
            return "\\scaleDurations 2/3 " + t, L.ScaleDurations(L.Fraction((2, 3)), n)
        if k == 19:
            t, n = self.seq(depth)
            c, cls = self.c(("sequential", L.Sequential), ("simultaneous", L.Simultaneous), ("notemode", L.NoteMode))
            return "\\%s %s" % (c, t), cls(n)
        if k == 20:
            t, n = self.arg(depth); a, b = self.string()
            return "\\quoteDuring %s %s" % (a, t), L.QuoteDuring(b, n)
        if k == 21:
            t, n = self.arg(depth); a, b = self.scheme()
            return "\\applyMusic %s %s" % (a, t), L.ApplyMusic(b, n)
        if k == 22:
            a, b = self.arg(depth), self.arg(depth)
            c = self.c("partcombine",)
            return "\\%s %s %s" % (c, a[0], b[0]), L.PartCombine(a[1], b[1])
        if k == 23:
            t, n = self.arg(depth)
            return "\\shiftDurations 1 0 " + t, L.ShiftDurations(L.Int(1), L.Int(0), n)
        if k == 24:
            t, n = self.seq(depth); u, m = self.c(self.seq(depth), self.note())
            c, cls = self.c(("pushToTag", L.PushToTag), ("appendToTag", L.AppendToTag))
            a, b = self.c(("#'here", L.Scheme("#", S.q(S.i("here")))), ("here", L.Symbol("here")), ('"here"', L.String("here")))
            return "\\%s %s %s %s" % (c, a, u, t), cls(b, m, n)
        if k == 25:
            t, n = self.c(self.seq(depth), self.seq(depth), self.note())
            a, b = self.c(("1", L.Int(1)), ("2", L.Int(2)), ("3", L.Int(3)), ("1,2", L.List(L.Int(1), L.Separator(","), L.Int(2))),
                ("#'(1 3)", L.Scheme("#", S.q(S.List(S.s(1), S.s(3))))), ("#1", L.Scheme("#", S.s(1))))
            return "\\volta %s %s" % (a, t), L.Volta(b, n)
        if k == 26:
            t, n = self.c(self.seq(depth), self.note())
            if self.p(.5):
                return "\\unfolded " + t, L.Unfolded(n)
            t, n = self.seq(depth)
            return "\\skip " + t, L.Skip(n)
        t, n = self.markup()
        return t, n

    def with_(self):
        items = []
        for i in range(self.r.randint(0, 3)):
            t, n = self.symstr()
            k = self.r.randrange(3)
            if k == 0:
                c, cls = self.c(("consists", L.Consists), ("remove", L.Remove))
                items.append(("\\%s %s" % (c, t), cls(n)))
            elif k == 1:
                v, w = self.string()
                items.append(("instrumentName = " + v, L.Assignment(L.Identifier(L.Symbol("instrumentName")), L.EqualSign(), w)))
            else:
                v, w = self.scheme(); a, b = self.path()
                items.append(("\\override %s = %s" % (a, v), L.Override(b, L.EqualSign(), w)))
        self.u("with")
        return "\\with { " + " ".join(t for t, _ in items) + " }", L.With(*(n for _, n in items))

    def lyrics(self):
        items = []
        bare = True     # a single duration would be a syllable of its own
        for i in range(self.r.randint(0, 6)):
            k = self.r.randrange(7)
            t, d = self.dur(.3)
            if k == 6 and not bare:
                continue
            bare = bool(d) and k not in (3, 4)
            if k <= 2:
                w = self.c("ly", "rics", "Dear,", "don't", "é", "a~b", "c")
                items.append((w + t, L.LyricText(w, *d)))
            elif k == 3:
                items.append(("--", L.LyricHyphen()))
            elif k == 4:
                items.append(self.c(("__", L.LyricExtender()), ("_" + t, L.LyricSkip(*d))))
            elif k == 6:
                self.u("lyric duration")
                t, d = self.dur(1)
                items.append((t.lstrip(), L.LyricItem(*d)))
                bare = True
            else:
                s, n = self.string() if self.r.random() < .6 else \
                    self.c(("#\"a\"", L.Scheme('#', S.String("a"))), ("\\markup x", L.Markup("markup", L.MarkupWord("x"))))
                if t and s[-1] not in '"' and not t[:1].isspace():
                    t = " " + t
                items.append((s + t, L.LyricItem(n, *d)))
        return "{ " + " ".join(t for t, _ in items) + " }", L.MusicList(*(n for _, n in items))

    def lyricmode(self):
        self.u("lyricmode")
        t, n = self.lyrics()
        c = self.c("lyricmode", "addlyrics", "lyrics", "lyricsto")
        if c == "lyricsto":
            a, b = self.string()
            return "\\lyricsto %s %s" % (a, t), L.LyricMode(c, b, n)
        return "\\%s %s" % (c, t), L.LyricMode(c, n)

    def drummode(self):
        self.u("drummode")
        items = []
        for i in range(self.r.randint(0, 5)):
            t, d = self.dur()
            w = self.c("bd", "sn", "hihat", "hhc", "cymc")
            items.append(self.c((w + t, L.Drum(w, *d)), ("r" + t, L.Rest(*[x.copy() for x in d]))))
        c = self.c("drummode", "drums")
        return "\\%s { %s }" % (c, " ".join(t for t, _ in items)), L.DrumMode(c, L.MusicList(*(n for _, n in items)))

    def chordmode(self):
        self.u("chordmode")
        items = []
        for i in range(self.r.randint(0, 4)):
            n = self.r.choice(NAMES[:11]); t, d = self.dur()
            k = self.r.randrange(8)
            if k == 0: m, x = "", []
            elif k == 1: m, x = ":m", [L.ChordModifiers(L.AddSteps(L.Qualifier("m")))]
            elif k == 2: m, x = ":7", [L.ChordModifiers(L.AddSteps(L.Step(7)))]
            elif k == 3: m, x = ":maj7", [L.ChordModifiers(L.AddSteps(L.Qualifier("maj"), L.Step(7)))]
            elif k == 4: m, x = "/g", [L.ChordModifiers(L.Inversion(L.Pitch("g")))]
            elif k == 5:
                m, x = self.steps()
            else: m, x = ":m/+b", [L.ChordModifiers(L.AddSteps(L.Qualifier("m")), L.AddInversion(L.Pitch("b")))]
            items.append((n + t + m, L.Note(n, *d, *x)))
        c = self.c("chordmode", "chords")
        return "\\%s { %s }" % (c, " ".join(t for t, _ in items)), L.ChordMode(c, L.MusicList(*(n for _, n in items)))

    def step(self):
        n = self.c(5, 7, 9, 11, 13, 3, 4)
        a = self.c("", "", "+", "-")
        return "%d%s" % (n, a), L.Step(n, *([L.Alteration(a)] if a else []))

    def steps(self):
        """Chord modifiers with more steps."""
        self.u("chord steps")
        text, kids = ":", []
        if self.p(.4):
            q = self.c("m", "maj", "dim", "aug", "sus")
            text += q; kids.append(L.Qualifier(q))
        for i in range(self.r.randint(0, 3)):
            t, n = self.step()
            if i:
                text += "."; kids.append(L.Separator("."))
            text += t; kids.append(n)
        out = [L.AddSteps(*kids)]
        if self.p(.4):
            text += "^"; kids = []
            for i in range(self.r.randint(1, 3)):
                t, n = self.step()
                if i:
                    text += "."; kids.append(L.Separator("."))
                text += t; kids.append(n)
            out.append(L.RemoveSteps(*kids))
        elif text == ":":
            text += "7"; out = [L.AddSteps(L.Step(7))]
        if self.p(.2):
            text += "/e"; out.append(L.Inversion(L.Pitch("e")))
        return text, [L.ChordModifiers(*out)]

    def figuremode(self):
        self.u("figuremode")
        items = []
        for i in range(self.r.randint(0, 4)):
            t, d = self.dur()
            steps, text = [], []
            for j in range(self.r.randint(1, 3)):
                k = self.r.randrange(6)
                n = self.r.randint(2, 9)
                if k == 5:
                    t2, m = self.c(self.string, lambda: self.markup(1))()
                    text.append(t2 + " "); steps.append(m)
                    self.u("figure text")
                    continue
                if k == 0: text.append("_"); steps.append(L.FigureSkip())
                elif k == 1: text.append("%d" % n); steps.append(L.FigureStep(n))
                elif k == 2:
                    a, v = self.c(("+", .5), ("-", -.5), ("!", 0), ("++", 1), ("--", -1))
                    text.append("%d%s" % (n, a)); steps.append(L.FigureStep(n, L.FigureAccidental(v)))
                elif k == 3:
                    a, v = self.c(("\\+", "augmented"), ("/", "diminished"), ("\\\\", "raised"), ("\\!", "end-of-line"))
                    text.append("%d%s" % (n, a)); steps.append(L.FigureStep(n, L.FigureAlteration(v)))
                else:
                    text.append("[%d]" % n); steps.append(L.FigureBracket(L.FigureStep(n)))
            items.append(("<%s>%s" % (" ".join(text), t), L.Figure(L.FigureBody(*steps), *d)))
        c = self.c("figuremode", "figures")
        return "\\%s { %s }" % (c, " ".join(t for t, _ in items)), L.FigureMode(c, L.MusicList(*(n for _, n in items)))

    # -- markup
    def markup(self, depth=2):
        self.u("markup")
        t, n = self.mk(depth)
        return "\\markup " + t, L.Markup("markup", n)

    def mk(self, depth):
        k = self.r.randrange(8 if depth else 3)
        if k <= 1:
            w = self.c("hi", "word", "é", "a.b", "don't", "4.", "x-y")
            return w, L.MarkupWord(w)
        if k == 2: return self.string()
        if k <= 4:
            items = [self.mk(depth - 1) for i in range(self.r.randint(0, 3))]
            return "{ " + " ".join(t for t, _ in items) + " }", L.MarkupList(*(n for _, n in items))
        if k <= 6:
            c = self.c("bold", "italic", "center-column", "concat", "line")
            t, n = self.mk(depth - 1)
            return "\\%s %s" % (c, t), L.MarkupCommand(c, n)
        if self.p(.3):
            self.u("markup score")
            c, cls = self.c(("\\score", L.MarkupScore), ("\\score-lines", L.MarkupScoreLines))
            items = [self.seq(0)] + ([self.layout()] if self.p(.3) else [])
            return c + " { " + " ".join(t for t, _ in items) + " }", cls(*(n for _, n in items))
        t, n = self.mk(depth - 1)
        return self.c(("\\raise #1.5 " + t, L.MarkupCommand("raise", L.Scheme("#", S.Number(1.5)), n.copy())), ("\\with-color #red " + t, L.MarkupCommand("with-color", L.Scheme("#", S.i("red")), n.copy())))

    # -- documents
    def assignment(self, depth):
        self.u("assignment")
        name = self.r.choice(SYMS)
        text, ident = name, [L.Symbol(name)]
        if self.p(.25):
            text += ".part"; ident += [L.Separator("."), L.Symbol("part")]
        if self.p(.15):
            n = self.r.randint(1, 9)
            text += ".%d" % n; ident += [L.Separator("."), L.Int(n)]
        k = self.r.randrange(6)
        if k <= 1: t, v = self.expr(depth)
        elif k == 2: t, v = self.seq(depth)
        elif k == 3: t, v = self.string()
        elif k == 4: t, v = self.markup()
        else: t, v = self.scheme()
        return text + " = " + t, L.Assignment(L.Identifier(*ident), L.EqualSign(), v)

    def header(self):
        self.u("header")
        items = []
        for n in self.r.sample(["title", "composer", "tagline", "piece", "myField"], self.r.randint(0, 4)):
            t, v = self.c(self.string(), self.markup(), self.c(("##f", L.Scheme("#", S.Bool(False))), ("#5", L.Scheme("#", S.Number(5)))))
            items.append(("%s = %s" % (n, t), L.Assignment(L.Identifier(L.Symbol(n)), L.EqualSign(), v)))
        return "\\header { %s }" % " ".join(t for t, _ in items), L.Header(*(n for _, n in items))

    def paper(self):
        self.u("paper")
        items = []
        for n in self.r.sample(["indent", "top-margin", "ragged-right", "my-thing"], self.r.randint(0, 3)):
            k = self.r.randrange(4)
            x = self.r.randint(1, 90)
            if k == 0: t, v = str(x), L.Int(x)
            elif k == 1:
                u = self.c("mm", "cm", "in", "pt"); t, v = "%d\\%s" % (x, u), L.Int(x, L.Unit(u))
            elif k == 2:
                u = self.c("mm", "cm"); t, v = "%d.5\\%s" % (x, u), L.Float(x + .5, L.Unit(u))
            else: t, v = self.scheme()
            items.append(("%s = %s" % (n, t), L.Assignment(L.Identifier(L.Symbol(n)), L.EqualSign(), v)))
        return "\\paper { %s }" % " ".join(t for t, _ in items), L.Paper(*(n for _, n in items))

    def layout(self):
        self.u("layout")
        items = []
        if self.p(.6):
            inner, kids = "\\Staff", [L.MusicFunction("Staff")]
            for i in range(self.r.randint(0, 3)):
                t, n = self.symstr()
                c, cls = self.c(("accepts", L.Accepts), ("denies", L.Denies), ("name", L.Name), ("alias", L.Alias), ("consists", L.Consists), ("remove", L.Remove), ("defaultchild", L.DefaultChild))
                inner += " \\%s %s" % (c, t); kids.append(cls(n))
            items.append(("\\context { %s }" % inner, L.LayoutContext(*kids)))
        return "\\layout { %s }" % " ".join(t for t, _ in items), L.Layout(*(n for _, n in items))

    def score(self, depth):
        self.u("score")
        items = [self.c(self.seq(depth), self.sim(depth), ("\\music", L.IdentifierRef("music")))]
        if self.p(.4): items.append(self.header())
        if self.p(.5): items.append(self.layout())
        if self.p(.4): items.append(("\\midi { }", L.Midi()))
        return "\\score { %s }" % " ".join(t for t, _ in items), L.Score(*(n for _, n in items))

    def toplevel(self, depth):
        k = self.r.randrange(10)
        if k <= 2: return self.assignment(depth)
        if k == 3: return self.header()
        if k == 4: return self.paper()
        if k == 5: return self.layout()
        if k == 6: return self.score(depth)
        if k == 7:
            self.u("book")
            a, b = self.score(depth), self.score(depth)
            return "\\book { \\bookpart { %s } %s }" % (a[0], b[0]), L.Book(L.BookPart(a[1]), b[1])
        if k == 8: return self.expr(depth)
        return self.c(('\\version "2.24.0"', L.Version(L.String("2.24.0"))), ('\\language "english"', L.Language(L.String("english"))), ('\\include "a b.ily"', L.Include(L.String("a b.ily"))), self.comment())

    def document(self, depth=2):
        items = [self.toplevel(depth) for i in range(self.r.randint(1, 3))]
        return "\n".join(t for t, _ in items), L.Document(*(n for _, n in items))
