r"""An independent evaluator of LilyPond music, working on the text.

It parses the part of the language that :mod:`vt.musgen` writes (and that the
library writes back), following LilyPond's own rules, and computes from that

* the absolute pitches as they sound (``\relative``, ``\fixed``, ``\transpose``,
  ``\absolute``, octave checks and languages),
* the durations and default durations,
* the musical time (length and position) of everything.

Nothing of the library under test is used; only parce's table of pitch names.

"""

import re
from fractions import Fraction

from parce.lang.lilypond_words import pitch_names

SCALE = (0, 2, 4, 5, 7, 9, 11)      # semitones of the natural notes
NAMED = {"\\breve": 2, "\\longa": 4, "\\maxima": 8}


class RefError(Exception):
    """The text is outside the language that is understood."""


class M:
    """A node: kind, position in the text and attributes."""
    def __init__(self, kind, pos, **kw):
        self.kind = kind
        self.pos = pos
        self.end = None
        self.children = []      # music, in text order
        self.dur = None         # explicit (duration, scaling)
        self.__dict__.update(kw)

    def __repr__(self):
        return "<{} {}{}>".format(self.kind, self.pos, " " + repr(self.children) if self.children else "")

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


DURABLE = ("note", "chord", "q", "rest", "skip", "drum", "lyric", "figure")

_WS = re.compile(r"(?:\s+|%\{.*?%\}|%[^\n]*)*", re.S)
_WORD = re.compile(r"[^\W\d_]+(?:-[^\W\d_]+)*")
_DUR = re.compile(r"(\\breve|\\longa|\\maxima|\d+)((?:\s*\.)*)((?:\s*\*\s*\d+(?:\s*/\s*\d+)?)*)(?![a-zA-Z])")
_CMD = re.compile(r"\\[a-zA-Z]+(?:[-_][a-zA-Z]+)*")
_STR = re.compile(r'"(?:\\.|[^"\\])*"', re.S)
_SCHEME = re.compile(r"[#$]\s*(?:'?[^\s(){}\"#]+|##[tf]|#[tf])")
_FRAC = re.compile(r"\d+\s*/\s*\d+")
_SYM = re.compile(r"[a-zA-Z]+(?:\.[a-zA-Z]+)*")

DYN = set("ppppp pppp ppp pp p mp mf f ff fff ffff fffff fp sf sff sp spp sfz rfz n cresc decresc dim".split())
ART = set("trill fermata accent staccato tenuto prall mordent turn stopped open upbow downbow marcato portato "
          "espressivo segno coda flageolet staccatissimo startTrillSpan stopTrillSpan rest glissando arpeggio laissezVibrer "
          "sustainOn sustainOff".split())
MODES = dict(chordmode="chord", chords="chord", lyricmode="lyric", lyrics="lyric", lyricsto="lyric", drummode="drum", drums="drum",
             figuremode="figure", figures="figure", notemode="note")
GRACE = ("grace", "acciaccatura", "appoggiatura", "slashedGrace")
ONE = ("absolute", "unfoldRepeats", "unfolded", "simultaneous", "sequential", "score", "book", "bookpart", "oneVoice_")


class Doc:
    def __init__(self, text, fpa=None):
        self.text = text
        self.items = []         # toplevel music and others
        self.vars = {}
        self.pitchspans = []    # (start, end, M) of name and octave marks
        self.checkspans = []    # (start, end)
        self.durspans = []      # (start, end)
        self.relspans = []      # (start, end) of \relative and its start pitch
        self.octchecks = []     # (start, end) of \octaveCheck and pitch
        self.durables = []      # in order of the text
        self.version = ()
        self.fpa = fpa
        self.reset = []
        self.nolist = []        # commands that need a music list, but have another argument

    def first_pitch_absolute(self):
        return self.version >= (2, 18) if self.fpa is None else self.fpa

    def walk(self):
        for i in self.items:
            yield from i.walk()


class Parser:
    def __init__(self, text, fpa=None, language="nederlands"):
        self.t = text
        self.p = 0
        self.lang = language
        self.doc = Doc(text, fpa)
        self.mode = "note"
        self.default = (Fraction(1, 4), Fraction(1))

    # -- helpers
    def ws(self):
        self.p = _WS.match(self.t, self.p).end()

    def error(self, msg="unexpected"):
        raise RefError("{} at {}: {!r}".format(msg, self.p, self.t[self.p:self.p + 40]))

    def peek(self, s):
        self.ws()
        return self.t.startswith(s, self.p)

    def eat(self, s):
        self.ws()
        if not self.t.startswith(s, self.p):
            self.error("expected " + s)
        self.p += len(s)

    def match(self, rx):
        self.ws()
        m = rx.match(self.t, self.p)
        if m:
            self.p = m.end()
        return m

    def command(self):
        """The command name at the current position, or None."""
        self.ws()
        m = _CMD.match(self.t, self.p)
        return m.group()[1:] if m else None

    def atend(self):
        self.ws()
        return self.p >= len(self.t)

    # -- pitches
    def pitchname(self):
        """Match a pitch name: (start, end, name) or None."""
        self.ws()
        m = _WORD.match(self.t, self.p)
        if not m:
            return None
        names = pitch_names[self.lang]
        w = m.group()
        while w not in names and "-" in w:
            w = w.rsplit("-", 1)[0]
        if w in names:
            return self.p, self.p + len(w), w
        return None

    def marks(self):
        """Octave marks; returns the number."""
        n = 0
        save = self.p
        m = re.compile(r"\s*('+|,+)").match(self.t, self.p)
        if m:
            s = m.group(1)
            self.p = m.end()
            return len(s) if s[0] == "'" else -len(s)
        self.p = save
        return 0

    def pitch(self, kind="pitch", accidental=True):
        """Parse a pitch, with marks, accidental and octave check."""
        r = self.pitchname()
        if not r:
            self.error("expected pitch")
        start, self.p, name = r
        m = M(kind, start, name=name, lang=self.lang, check=None)
        m.marks = self.marks()
        m.pitchend = self.p
        self.doc.pitchspans.append((start, self.p, m))
        if accidental:
            a = re.compile(r"\s*[!?]+").match(self.t, self.p)
            if a:
                self.p = a.end()
            a = re.compile(r"\s*=").match(self.t, self.p)
            if a:
                s = a.end() - 1
                self.p = a.end()
                m.check = self.marks()
                self.doc.checkspans.append((s, self.p))
        m.end = self.p
        m.end_pitch = self.p
        return m

    def duration(self, owner=None):
        self.ws()
        m = _DUR.match(self.t, self.p)
        if not m:
            return None
        base, dots, scale = m.groups()
        d = Fraction(NAMED[base]) if base in NAMED else Fraction(1, int(base))
        n = dots.count(".")
        d = d * 2 - d / 2 ** n
        s = Fraction(1)
        for f in re.findall(r"\d+\s*/\s*\d+|\d+", scale):
            s *= Fraction(f.replace(" ", ""))
        self.doc.durspans.append((m.start(), m.end(), owner))
        self.p = m.end()
        return d, s

    def finish(self, m, sets=True, events=True):
        """Duration and post events of a durable."""
        save = self.p
        m.dur = self.duration(m)
        if m.dur is None:
            self.p = save
            m.edur = self.default
        else:
            m.edur = m.dur
            if sets:
                self.default = m.dur
        self.doc.durables.append(m)
        m.end = self.p
        if events:
            self.events(m)
        return m

    # -- post events
    def events(self, owner):
        while True:
            save = self.p
            self.ws()
            c = self.t[self.p:self.p + 1]
            if c and c in "~()[]" :
                self.p += 1
            elif re.compile(r"\\[<>!()]").match(self.t, self.p):
                self.p += 2
            elif c and c in "-_^":
                self.p += 1
                self.ws()
                c = self.t[self.p:self.p + 1]
                if c and c in ".>^+_!-":
                    self.p += 1
                elif c.isdigit():
                    self.p += 1
                elif c == '"':
                    self.match(_STR)
                elif c and c in "~([)]":
                    self.p += 1
                elif self.command() == "markup":
                    self.markup(owner)
                elif c == "\\" and re.compile(r"\\[<>!()]").match(self.t, self.p):
                    self.p += 2
                elif c == "\\":
                    self.match(_CMD)
                else:
                    self.error("event")
            elif c == "\\" and self.command() in DYN | ART:
                self.match(_CMD)
            else:
                self.p = save
                return

    def markup(self, owner):
        self.match(_CMD)
        self.markuparg(owner)

    def markuparg(self, owner):
        self.ws()
        c = self.t[self.p:self.p + 1]
        if c == "{":
            self.p += 1
            while not self.peek("}"):
                if self.atend():
                    self.error("markup")
                self.markuparg(owner)
            self.eat("}")
        elif c == '"':
            self.match(_STR)
        elif c == "\\":
            name = self.command()
            self.match(_CMD)
            if name in ("score", "score-lines"):
                self.eat("{")
                saved = self.mode
                self.mode = "note"
                while not self.peek("}"):
                    m = self.item()
                    if m is not None and owner is not None:
                        owner.children.append(M("toplevel", m.pos, item=m, children=[m]) if False else _score(m))
                self.eat("}")
                self.mode = saved
            else:
                self.markuparg(owner)
        elif c == "#":
            self.scheme()
        else:
            m = re.compile(r"[^\s{}\"\\#]+").match(self.t, self.p)
            if not m:
                self.error("markup")
            self.p = m.end()

    def scheme(self):
        self.ws()
        self.p += 1
        c = self.t[self.p:self.p + 1]
        if c == "'":
            self.p += 1
            c = self.t[self.p:self.p + 1]
        if c == "(":
            depth = 0
            while True:
                m = re.compile(r'"(?:\\.|[^"\\])*"|[()]|[^()"]+').match(self.t, self.p)
                if not m:
                    self.error("scheme")
                self.p = m.end()
                depth += {"(": 1, ")": -1}.get(m.group(), 0)
                if not depth:
                    return None
        elif c == '"':
            self.match(_STR)
            return None
        m = re.compile(r"#[tf]|[^\s(){}\"]+").match(self.t, self.p)
        if not m:
            self.error("scheme")
        self.p = m.end()
        try:
            return Fraction(m.group())
        except ValueError:
            return None

    def number(self):
        """A number argument, n, n/m or #n."""
        self.ws()
        if self.t[self.p:self.p + 1] == "#":
            return self.scheme()
        m = self.match(_FRAC) or self.match(re.compile(r"-?\d+"))
        if not m:
            self.error("number")
        return Fraction(m.group().replace(" ", ""))

    def string(self):
        self.ws()
        if self.t[self.p:self.p + 1] == "#":
            self.scheme()
            return None
        m = self.match(_STR)
        if m:
            return m.group()[1:-1]
        m = self.match(re.compile(r"[a-zA-Z0-9.]+(?:_\d+)?"))
        if not m:
            self.error("string")
        return m.group()

    # -- music
    def list_until(self, close):
        r = []
        while not self.peek(close):
            if self.atend():
                self.error("missing " + close)
            m = self.item()
            if m is not None:
                r.append(m)
        self.eat(close)
        return r

    def music(self):
        m = self.item()
        while m is not None and m.kind == "post":
            m = self.item()
        if m is None:
            self.error("expected music")
        return m

    def item(self):
        """Parse one item; returns M or None (for something without meaning)."""
        self.ws()
        pos = self.p
        t = self.t
        c = t[pos:pos + 1]
        if t.startswith("<<", pos):
            self.p += 2
            m = M("sim", pos)
            m.children = self.list_until(">>")
            m.end = self.p
            return m
        if c == "{":
            self.p += 1
            m = M("seq", pos)
            m.children = self.list_until("}")
            m.end = self.p
            return m
        if c == "<":
            return self.angle()
        if c == "\\":
            if t.startswith("\\\\", pos):
                self.p += 2
                return M("voices", pos)
            return self.cmd()
        if c and c in "#$":
            self.scheme()
            return M("scheme", pos)
        if c == "|" or c == "~":
            self.p += 1
            return M("barcheck", pos)
        if c == '"':
            self.match(_STR)
            if self.mode == "lyric":
                return self.finish(M("lyric", pos), events=False)
            return M("string", pos)
        if self.mode == "lyric":
            m = re.compile(r"--|__").match(t, pos)
            if m:
                self.p = m.end()
                return M("hyphen", pos)
            m = re.compile(r"[^\s\d{}\"\\%<>#$=*.|]+").match(t, pos)
            if m:
                self.p = m.end()
                return self.finish(M("lyric", pos), events=False)
            if c.isdigit():
                return self.finish(M("lyric", pos, unpitched=True), events=False)
            self.error("lyric")
        if c.isdigit() or (c == "\\" and self.command() in ("breve", "longa", "maxima")):
            return self.finish(M("unpitched" if False else "rest", pos, unpitched=True))
        m = _WORD.match(t, pos)
        if m:
            w = m.group()
            if self.mode == "drum":
                self.p = m.end()
                if w in ("r", "R", "s"):
                    return self.finish(M("rest", pos))
                return self.finish(M("drum", pos))
            if w in ("r", "R", "s"):
                self.p = m.end()
                return self.finish(M("rest", pos))
            if w == "q":
                self.p = m.end()
                return self.finish(M("q", pos))
            if self.mode in ("note", "chord") and self.pitchname():
                n = self.pitch("note")
                if self.mode == "chord":
                    return self.chordnote(n)
                return self.finish(n)
        self.error("item")

    def chordnote(self, n):
        """Duration and modifiers in chord mode."""
        self.finish(n, events=False)
        m = re.compile(r":[a-z0-9.+\-^]*").match(self.t, self.p)
        if m:
            self.p = m.end()
        m = re.compile(r"/\+?").match(self.t, self.p)
        if m:
            self.p = m.end()
            n.inversion = self.pitch("inversion")
            n.children.append(n.inversion)
        n.rootnote = True
        self.events(n)
        return n

    def angle(self):
        pos = self.p
        self.p += 1
        if self.mode == "figure":
            m = M("figure", pos)
            i = self.t.index(">", self.p)
            self.p = i + 1
            return self.finish(m)
        m = M("chord", pos)
        while not self.peek(">"):
            if self.mode == "drum":
                w = self.match(_WORD)
                if not w:
                    self.error("drum chord")
                m.children.append(M("drumin", w.start()))
                continue
            n = self.pitch("note")
            n.inchord = True
            n.edur = None
            self.events(n)
            m.children.append(n)
        self.p += 1
        m.bodyend = self.p
        m.notes = list(m.children)
        return self.finish(m)

    def block(self, kind, pos):
        """A { ... } block with music and assignments."""
        self.eat("{")
        m = M(kind, pos)
        while not self.peek("}"):
            c = self.command()
            if c in ("header", "layout", "midi", "paper", "with"):
                self.skipblock()
                continue
            x = self.item()
            if x is not None:
                m.children.append(x)
        self.eat("}")
        m.end = self.p
        return m

    def skipblock(self):
        self.match(_CMD)
        self.eat("{")
        depth = 1
        while depth:
            self.ws()
            m = re.compile(r'"(?:\\.|[^"\\])*"|[{}]|[^{}"%\s]+').match(self.t, self.p)
            if not m:
                self.error("block")
            self.p = m.end()
            depth += {"{": 1, "}": -1}.get(m.group(), 0)

    def cmd(self):
        pos = self.p
        name = self.command()
        if name is None:
            self.error("command")
        if name in ("breve", "longa", "maxima"):
            return self.finish(M("lyric" if self.mode == "lyric" else "rest", pos, unpitched=True), events=self.mode != "lyric")
        self.match(_CMD)
        m = M("cmd", pos, name=name)
        if name in ("language",):
            lang = self.string()
            if lang in pitch_names:
                self.lang = lang
        elif name == "include":
            f = self.string()
            if f.endswith(".ly") and f[:-3] in pitch_names:
                self.lang = f[:-3]
        elif name == "version":
            v = self.string()
            if not self.doc.version:
                self.doc.version = tuple(map(int, re.findall(r"\d+", v)))
        elif name == "relative":
            m.kind = "relative"
            m.start = None
            end = self.p
            if self.pitchname():
                m.start = self.pitch("start", False)
                end = self.p
            self.doc.relspans.append((pos, end))
            m.children = [self.music()]
        elif name == "fixed":
            m.kind = "fixed"
            m.ref = self.pitch("ref", False)
            m.children = [self.music()]
        elif name == "absolute":
            m.kind = "absolute"
            m.children = [self.music()]
        elif name == "transpose":
            m.kind = "transpose"
            m.a = self.pitch("ref", False)
            m.b = self.pitch("ref", False)
            m.children = [self.music()]
        elif name == "key":
            m.kind = "key"
            m.pitch = self.pitch("keypitch", False)
            if not self.match(_CMD):
                self.scheme()
        elif name == "octaveCheck":
            m.kind = "octavecheck"
            m.pitch = self.pitch("octcheck", False)
            self.doc.octchecks.append((pos, self.p))
        elif name == "transposition":
            m.kind = "transposition"
            m.pitch = self.pitch("transposition", False)
        elif name == "stringTuning":
            m.kind = "stringtuning"
            m.pitches = []
            self.eat("<")
            while not self.peek(">"):
                m.pitches.append(self.pitch("transposition", False))
            self.eat(">")
        elif name == "time":
            self.ws()
            if self.t[self.p] == "#":
                self.scheme()
            else:
                self.match(re.compile(r"\d+\s*(,\s*\d+\s*)+(?![/\d])"))
            self.match(_FRAC) or self.error("fraction")
        elif name == "mark":
            self.ws()
            if self.command() == "default":
                self.match(_CMD)
            elif self.t[self.p] == '"':
                self.match(_STR)
            else:
                self.number()
        elif name == "ottava":
            self.number()
        elif name == "volta":
            m.kind = "wrap"
            self.ws()
            if self.t[self.p] == "#":
                self.scheme()
            else:
                self.match(re.compile(r"\d+(\s*,\s*\d+)*")) or self.error("number")
            m.children = [self.music()]
        elif name == "partial":
            m.kind = "partial"
            m.dur = self.duration(m)
        elif name == "clef":
            self.string()
        elif name == "bar":
            self.string()
        elif name == "tempo":
            m.kind = "tempo"
            self.ws()
            if self.t[self.p:self.p + 1] == '"':
                self.match(_STR)
            self.ws()
            d = self.duration(m)
            if d:
                m.dur = d
                self.eat("=")
                self.match(re.compile(r"\d+(?:\s*-\s*\d+)?"))
        elif name in ("tuplet", "times"):
            m.kind = "scaled"
            f = Fraction(self.match(_FRAC).group().replace(" ", ""))
            m.scale = f if name == "times" else 1 / f
            if name == "tuplet":
                m.dur = self.duration(m)
            m.children = [self.music()]
        elif name == "scaleDurations":
            m.kind = "scaled"
            m.scale = self.number()
            m.children = [self.music()]
        elif name == "shiftDurations":
            m.kind = "shifted"
            m.log = int(self.number())
            m.dots = int(self.number())
            m.children = [self.music()]
        elif name in GRACE:
            m.kind = "scaled"
            m.scale = Fraction(0)
            m.children = [self.music()]
        elif name == "afterGrace":
            m.kind = "aftergrace"
            self.match(_FRAC)
            m.children = [self.music(), self.music()]
        elif name == "repeat":
            m.kind = "repeat"
            m.rtype = self.string()
            m.count = int(self.number())
            m.children = [self.music()]
            m.alternatives = None
            save = self.p
            if self.command() == "alternative":
                self.match(_CMD)
                m.alternatives = self.music()
                m.children.append(m.alternatives)
                if m.alternatives.kind not in ("seq", "sim"):
                    self.doc.nolist.append(m)
            else:
                self.p = save
        elif name in ("new", "context"):
            m.kind = "wrap"
            self.match(_SYM)
            save = self.p
            if self.peek("="):
                self.eat("=")
                self.string()
            else:
                self.p = save
            save = self.p
            if self.command() == "with":
                self.skipblock()
            else:
                self.p = save
            m.children = [self.music()]
        elif name == "addlyrics" or name in MODES:
            m.kind = "mode"
            saved = self.mode
            m.mode = self.mode = MODES.get(name, "lyric")
            if name == "lyricsto":
                self.string()
            m.children = [self.music()]
            self.mode = saved
        elif name in ("tag", "keepWithTag", "removeWithTag", "quoteDuring"):
            m.kind = "wrap"
            m.tag = name
            self.ws()
            self.scheme() if self.t[self.p] == "#" else self.string()
            m.children = [self.music()]
        elif name == "partcombine":
            m.kind = "partcombine"
            m.children = [self.music(), self.music()]
        elif name in ("unfoldRepeats", "unfolded", "simultaneous", "sequential", "bar_"):
            m.kind = name if name in ("simultaneous",) else "wrap"
            m.children = [self.music()]
            if name in ("simultaneous", "sequential") and m.children[0].kind not in ("seq", "sim"):
                self.doc.nolist.append(m)
            if name == "simultaneous":
                m.children[0].kind = "sim"
                m.kind = "wrap"
        elif name in ("score", "book", "bookpart"):
            b = self.block("block", pos)
            b.name = name
            return b
        elif name in ("header", "layout", "midi", "paper"):
            self.p = pos
            self.skipblock()
        elif name == "markup":
            self.markuparg(m)
            if self.mode == "lyric":
                m.kind = "lyric"
                return self.finish(m, events=False)
        elif name == "skip":
            d = self.duration(m)
            if d:
                m.kind = "skip"
                m.dur = m.edur = d
                self.doc.durables.append(m)
                m.end = self.p
                if self.mode != "lyric":
                    self.events(m)
                return m
            else:
                m.kind = "wrap"
                m.children = [self.music()]
        elif name == "after":
            m.kind = "after"
            m.dur = self.duration(m)
            self.events_one(m)      # the music follows as a sibling
        elif name in ("once", "stemUp", "stemDown", "voiceOne", "voiceTwo", "oneVoice", "break", "stemNeutral", "autoBeamOff"):
            pass
        elif name in ("override", "set"):
            self.match(_SYM)
            self.eat("=")
            self.ws()
            if self.t[self.p] == "#":
                self.scheme()
            elif self.t[self.p] == '"':
                self.match(_STR)
            else:
                self.match(re.compile(r"-?[\d.]+"))
        elif name in ("unset", "revert"):
            self.match(_SYM)
        elif name in self.doc.vars:
            m.kind = "ref"
            m.target = self.doc.vars[name]
        elif name == "undefined":
            m.kind = "ref"
            m.target = None
        else:
            self.p = pos
            self.error("unknown command")
        m.end = self.p
        return m

    def events_one(self, m):
        self.ws()
        if self.t[self.p:self.p + 1] in "-_^":
            self.p += 1
        self.ws()
        if self.t[self.p] == "\\":
            if not self.match(_CMD):
                self.p += 2
        else:
            self.p += 1

    def parse(self):
        doc = self.doc
        while not self.atend():
            pos = self.p
            m = re.compile(r"([a-zA-Z]+(?:[-_][a-zA-Z]+)*)\s*=(?!=)").match(self.t, pos)
            if m:
                name = m.group(1)
                self.p = m.end()
                self.ws()
                c = self.t[self.p:self.p + 1]
                if c == '"':
                    self.match(_STR)
                elif c == "#":
                    self.scheme()
                elif c.isdigit() and not _DUR.match(self.t, self.p):
                    self.number()
                else:
                    value = self.music()
                    a = M("assign", pos, name=name, end=self.p, children=[value])
                    doc.items.append(a)
                    doc.vars[name] = value
                continue
            x = self.item()
            if x is not None:
                doc.items.append(x)
        return doc


def _score(m):
    return M("score", m.pos, children=[m])


def parse(text, fpa=None, language="nederlands"):
    return Parser(text, fpa, language).parse()


# -- sounding pitches ------------------------------------------------------

def names_pitch(m):
    """(octave, note, alter) of a pitch as written."""
    o, n, a = pitch_names[m.lang][m.name]
    return o + m.marks, n, Fraction(a).limit_denominator(1000)


def name_octave(m):
    return pitch_names[m.lang][m.name][0]


def semitones(p):
    o, n, a = p
    return 12 * o + SCALE[n] + 2 * a


def interval(a, b):
    """(diatonic steps, semitones) from a to b."""
    return (b[0] * 7 + b[1]) - (a[0] * 7 + a[1]), semitones(b) - semitones(a)


def shift(p, iv):
    """Shift the pitch by interval (steps, semitones); not respelled."""
    steps, semis = iv
    d = p[0] * 7 + p[1] + steps
    o, n = divmod(d, 7)
    a = Fraction(semitones(p) + semis - 12 * o - SCALE[n]) / 2
    return o, n, a


def relative_octave(last, note):
    """The octave nearest to last, for the note (0..6)."""
    o = last[0]
    best = min((o - 1, o, o + 1), key=lambda x: abs((x * 7 + note) - (o * 7 + last[1])))
    return best


class Sound:
    """Computes the sounding pitches of a Doc, in text order.

    Every result is (kind, M, pitch); for the kind:

        note, restpitch, root    sounding: note, pitched rest, chord mode root
        inversion, key           (0, note, alter): without octave
        transposition            the pitch as is

    """
    def __init__(self, doc, chord_relative=False):
        self.doc = doc
        self.chord_relative = chord_relative    # the convention of quickly
        self.out = []
        self.fixrel = set()     # \\relative in \\fixed
        self.relcheck = set()   # ids of \\octaveCheck in \\relative
        self.ambiguous = set()  # reasons why the result may be unclear
        for i in doc.items:
            self.visit(i, "abs", None, ())

    def put(self, kind, m, pitch, trans, octave=True):
        for iv in reversed(trans):
            pitch = shift(pitch, iv)
        if not octave:
            pitch = (0,) + pitch[1:]
        self.out.append((kind, m, pitch))

    def visit(self, m, mode, last, trans):
        """mode: 'abs' or 'rel'.  Returns the new last pitch."""
        k = m.kind
        if k == "note":
            if getattr(m, "rootnote", False):
                p = names_pitch(m)
                if mode == "rel":
                    p = (relative_octave(last, p[1]) + m.marks + (name_octave(m) + 1), p[1], p[2])
                    last = p
                self.put("root", m, p, trans)
                for c in m.children:
                    if c.kind == "inversion":
                        self.put("inversion", c, names_pitch(c), trans, False)
                    else:
                        self.visit(c, "abs", None, ())
                return last
            p = names_pitch(m)
            if mode == "rel":
                o = relative_octave(last, p[1]) + m.marks + (name_octave(m) + 1)
                if m.check is not None:
                    m.corrected = o != m.check + name_octave(m)
                    o = m.check + name_octave(m)
                p = (o, p[1], p[2])
                last = p
            m.inrel = mode == "rel"
            m.abs = p       # without the transpositions
            self.put("note", m, p, trans)
            for c in m.children:
                self.visit(c, "abs", None, ())
            return last
        if k == "chord":
            first = None
            l = last
            for n in m.children:
                if n.kind in ("note",):
                    l = self.visit(n, mode, l, trans)
                    if first is None:
                        first = l
                elif n.kind == "score":
                    self.visit(n, "abs", None, ())
            return last if first is None else first
        if k == "score":
            for c in m.children:
                self.visit(c, "abs", None, ())
            return last
        if k == "relative":
            if any(isinstance(t, Fix) for t in trans):
                self.fixrel.add("relative in fixed")
            if m.start is not None:
                start = names_pitch(m.start)
            elif self.doc.first_pitch_absolute():
                start = (-1, 3, 0)
            else:
                start = (0, 0, 0)
            for c in m.children:
                self.visit(c, "rel", start, self.nofix(trans))
            return last
        if k == "absolute":
            for c in m.children:
                self.visit(c, "abs", None, self.nofix(trans))
            return last
        if k == "fixed":
            o = names_pitch(m.ref)[0] + 1
            for c in m.children:
                self.visit(c, "abs", None, self.nofix(trans) + (Fix(o),))
            return last
        if k == "transpose":
            iv = interval(names_pitch(m.a), names_pitch(m.b))
            for c in m.children:
                self.visit(c, "abs", None, trans + (iv,))
            return last
        if k == "key":
            self.put("key", m, names_pitch(m.pitch), trans, False)
            return last
        if k == "transposition":
            self.out.append(("transposition", m, names_pitch(m.pitch)))
            return last
        if k == "stringtuning":
            self.out += [("transposition", p, names_pitch(p)) for p in m.pitches]
            return last
        if k == "octavecheck":
            if mode == "rel":
                self.relcheck.add(id(m))
                # the previous note, with the octave corrected
                p = names_pitch(m.pitch)
                last = (last[0] + p[0] - relative_octave(last, p[1]), last[1], last[2])
            return last
        if k == "mode" and m.mode == "chord":
            if mode == "rel" and not self.chord_relative:
                self.ambiguous.add("chordmode in relative")
            if any(isinstance(t, Fix) for t in trans):
                self.ambiguous.add("chordmode in fixed")
            if mode == "rel" and self.chord_relative:
                for c in m.children:
                    last = self.visit(c, mode, last, trans)
                return last
            for c in m.children:
                self.visit(c, "abs", None, trans)
            return last
        if k in ("ref", "partial", "tempo"):
            return last
        for c in m.children:
            last = self.visit(c, mode, last, trans)
        return last

    @staticmethod
    def nofix(trans):
        # \relative, \absolute and \fixed undo the effect of a surrounding \fixed
        return tuple(t for t in trans if not isinstance(t, Fix))


class Fix(tuple):
    """The interval caused by \fixed."""
    def __new__(cls, octaves):
        return tuple.__new__(cls, (7 * octaves, 12 * octaves))


def sounds(doc, strict=False, chord_relative=False):
    """The list of sounds; None if strict and not clearly defined."""
    s = Sound(doc, chord_relative)
    return None if strict and s.ambiguous else s.out


# -- time -------------------------------------------------------------------

def log_dots(d):
    """Exact (log, dots) of a duration."""
    for log in range(-4, 24):
        base = Fraction(2) ** -log
        for dots in range(24):
            v = base * 2 - base / 2 ** dots
            if v == d:
                return log, dots
    raise RefError("no duration: %s" % d)


class Timing:
    """Computes the length and position of everything in a music expression.

    ``start[m]`` is the time since the start of the toplevel music expression,
    ``length[m]`` the length; both with the surrounding scaling.  Music in
    variables is played at the reference; the positions given are for the
    definition itself.

    """
    def __init__(self, doc):
        self.doc = doc
        self.start = {}
        self.length = {}
        self.unplaced = set()   # music of which the position is not determined
        for i in doc.items:
            for m in (i.children if i.kind in ("assign",) else self.tops(i)):
                self.visit(m, Fraction(0), (0, 0, Fraction(1)), True)

    def tops(self, i):
        if i.kind == "block":
            for c in i.children:
                yield from self.tops(c)
        else:
            yield i

    def put(self, m, at, length, store):
        if store:
            self.start[m] = at
            self.length[m] = length
        return length

    def visit(self, m, at, tr, store):
        k = m.kind
        log, dots, scale = tr
        if k in DURABLE:
            d, s = m.edur or (Fraction(0), 1)
            if m.edur is None:
                length = None   # in a chord
            elif k == "chord" and not m.notes:
                length = Fraction(0)
            else:
                if log or dots:
                    l, n = log_dots(d)
                    l, n = l + log, max(0, n + dots)
                    base = Fraction(2) ** -l
                    d = base * 2 - base / 2 ** n
                length = d * s * scale
            for c in m.children:
                if c.kind == "score":
                    for x in c.children:
                        self.visit(x, Fraction(0), (0, 0, Fraction(1)), store)
            return self.put(m, at, length, store)
        if k == "seq":
            t = Fraction(0)
            for c in m.children:
                t += self.visit(c, at + t, tr, store)
            return self.put(m, at, t, store)
        if k in ("sim", "partcombine"):
            t = Fraction(0)
            for c in m.children:
                t = max(t, self.visit(c, at, tr, store))
            return self.put(m, at, t, store)
        if k == "scaled":
            return self.put(m, at, self.visit(m.children[0], at, (log, dots, scale * m.scale), store), store)
        if k == "shifted":
            return self.put(m, at, self.visit(m.children[0], at, (log + m.log, dots + m.dots, scale), store), store)
        if k == "aftergrace":
            t = self.visit(m.children[0], at, tr, store)
            self.visit(m.children[1], at, tr, False)
            return self.put(m, at, t, store)
        if k == "repeat":
            body = self.visit(m.children[0], at, tr, store)
            n = m.count if m.rtype in ("unfold", "percent", "tremolo") else 1
            t = body * n
            if m.alternatives is not None:
                if m.rtype == "volta":
                    t += self.visit(m.alternatives, at + t, tr, store)
                else:
                    # only the length is determined for the alternatives
                    parts = [self.visit(c, at, tr, store) for c in m.alternatives.children]
                    self.unplaced.update(c for a in m.alternatives.children for c in a.walk())
                    self.unplaced.add(m.alternatives)
                    # when there are too few, the first one is played more often
                    todo = [0] * max(0, m.count - len(parts)) + list(range(len(parts)))
                    t += sum((parts[i] for i in todo[:m.count]), Fraction(0)) if parts else 0
            return self.put(m, at, t, store)
        if k == "ref":
            if m.target is None:
                return self.put(m, at, Fraction(0), store)
            return self.put(m, at, self.visit(m.target, Fraction(0), tr, False), store)
        if k in ("wrap", "mode", "relative", "absolute", "fixed", "transpose"):
            return self.put(m, at, self.visit(m.children[0], at, tr, store), store)
        for c in m.children:
            if c.kind == "score":
                for x in c.children:
                    self.visit(x, Fraction(0), (0, 0, Fraction(1)), store)
        return self.put(m, at, Fraction(0), store)


# -- text comparison ----------------------------------------------------------

def masked(text, spans, by):
    """The text with the spans replaced."""
    r = []
    pos = 0
    for s in sorted(spans):
        r.append(text[pos:s[0]])
        r.append(by)
        pos = s[1]
    r.append(text[pos:])
    return "".join(r)
