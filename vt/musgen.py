r"""Generator for LilyPond music that :mod:`vt.refly` understands."""

import re

from parce.lang.lilypond_words import pitch_names

LANGS = ("nederlands", "english", "deutsch", "français", "italiano", "español", "català", "norsk", "suomi", "svenska",
         "vlaams", "português", "espanol", "catalan", "portugues")
QUARTER = tuple(l for l in LANGS if any(v[2] == .25 for v in pitch_names[l].values()))

_cache = {}


def names_for(lang, quarter=False):
    key = lang, quarter
    if key not in _cache:
        ok = (-1, -.5, 0, .5, 1) if not quarter else (-1, -.75, -.5, -.25, 0, .25, .5, .75, 1)
        plain, other = [], []
        for n, v in pitch_names[lang].items():
            if n in ("s", "r", "q", "R"):
                continue
            if v[2] in ok:
                (plain if v[2] == 0 else other).append(n)
        _cache[key] = sorted(plain), sorted(other)
    return _cache[key]


class MusGen:
    """Generates music.

    Features (all True by default) can be switched off by naming them in
    ``without``: relative, fixed, absolute, transpose, key, chordmode, lyrics,
    drums, figures, score, vars, tuplet, shift, grace, repeat, language,
    octcheck, quarter, skip, sim, q, unpitched, tempo, context.

    """
    def __init__(self, rng, lang=None, without=(), comments=None, quarter=None, extra=(), unfold=False):
        self.extra = extra      # features that are off by default: partcombine, quote, keep, once
        self.unfold = ("unfold",) if unfold else ()     # alternatives for unfolded repeats
        self.rng = rng
        self.without = set(without)
        self.lang = lang or (rng.choice(LANGS) if rng.random() < .5 else "nederlands")
        self.explicit = False
        self.quarter = rng.random() < .15 if quarter is None else quarter
        if "quarter" in self.without or self.lang not in QUARTER:
            self.quarter = False
        self.comments = rng.choice([0, 0, .04, .1]) if comments is None else comments
        # music arguments that are one note or chord
        self.single = rng.choice([0, 0, .1, .3]) if "single" not in self.without else 0
        self.unfolding = 0
        # removing and adding dots in one document would depend on the order
        self.adddots = rng.random() < .7
        self.tight = .2         # how often a duration on its own follows a command with a single note
        self.vars = []
        self.lastname = ""
        self.durp = rng.choice([.2, .5, .9])    # how often a duration is written
        self.alterp = rng.choice([.1, .3, .6])

    def has(self, *names):
        return not any(n in self.without for n in names)

    # -- layout
    def gap(self):
        r = self.rng
        x = r.random()
        if x < self.comments:
            return r.choice([" %{ c d' 4 %}", " % c, 8\n", "\n% e'' \\relative\n  "]) + r.choice(["", " "])
        return " " if x < .85 else r.choice(["\n", "\n  ", "  "])

    def join(self, *parts):
        out = []
        for i, x in enumerate(parts):
            if i:
                g = self.gap()
                out.append(g if g[-1:].isspace() else g + " ")
            out.append(x)
        return "".join(out)

    def braces(self, items, o="{", c="}"):
        return self.join(o, *items, c)

    # -- parts
    def name(self):
        r = self.rng
        plain, other = names_for(self.lang, self.quarter)
        self.lastname = r.choice(other if r.random() < self.alterp else plain)
        return self.lastname

    def marks(self, rel=False):
        r = self.rng
        if rel:
            x = r.random()
            return "" if x < .78 else r.choice(["'", ",", "'", ",", "''", ",,"])
        return r.choice(["", "", "'", "'", "'", "''", ",", "'''", ",,"])

    def dur(self, scale=True):
        r = self.rng
        d = r.choice(["4", "4", "8", "8", "2", "16", "1", "32", "\\breve", "\\longa", "64"])
        d += r.choice(["", "", "", "", ".", ".."])
        if scale and r.random() < .12:
            d += r.choice(["*2/3", "*3", "*1/2", "*2", "*3/4*2", "*4/5"])
        return d

    def mdur(self):
        return self.dur() if self.rng.random() < self.durp else ""

    def events(self, score=True):
        r = self.rng
        out = ""
        while r.random() < .15:
            k = r.random()
            if k < .85:
                out += r.choice(["~", "(", ")", "[", "]", "-.", "->", "\\p", "\\f", "\\<", "\\!", "^\\trill", "-3", "_\"text\"", "\\fermata", "^\\markup bla "])
            elif score and self.has("score"):
                out += r.choice(["^", "_"]) + "\\markup { " + r.choice(["", "bla ", "\\bold "]) + "\\score " + self.braces([self.seq(0, False)]) + " } "
        return out

    def note(self, rel, events=True):
        r = self.rng
        s = self.name() + self.marks(rel)
        if r.random() < .08:
            s += r.choice(["!", "?"])
        d = self.mdur()
        if r.random() < .05:
            return s + d + "\\rest"
        return s + d + (self.events() if events else "")

    def chord(self, rel):
        r = self.rng
        n = r.choice([1, 2, 3, 3, 4]) if r.random() > .05 else 0
        items = []
        for i in range(n):
            x = self.name() + self.marks(rel)
            if r.random() < .06:
                x += r.choice(["!", "?", "-1"])
            items.append(x)
        return "<" + self.join(*items) + ">" + self.mdur() + self.events()

    def pitch(self):
        return self.name() + self.marks()

    def items(self, d, rel, n=None):
        r = self.rng
        out = []
        for i in range(n if n is not None else r.randint(1, 6)):
            lang = self.lang
            x = self.item(d, rel)
            if out and out[-1].startswith(("\\octaveCheck", "\\transposition", "\\stringTuning")) and not x[0].isalpha():
                self.lang = lang
                x = self.note(rel)  # a duration could belong to the pitch
            out.append(x)
            if self.single and self.has("unpitched") and x.startswith(("\\tuplet", "\\times", "\\scaleDur", "\\shiftDur", "\\tag", "\\repeat", "\\new", "\\grace", "\\acc", "\\after")) and "\\octaveCheck" not in x and "\\transposition" not in x and "\\stringTuning" not in x and r.random() < self.tight:
                out.append(self.dur() + self.events(False))
        return out

    def arg(self, d, rel):
        """A music argument."""
        r = self.rng
        if r.random() < self.single:
            return self.note(rel) if r.random() < .6 else self.chord(rel) if r.random() < .6 else self.join(
                r.choice(["\\tuplet 3/2", "\\scaleDurations 2/3", "\\tag #'a", "\\new Voice"]), self.note(rel))
        return self.seq(d, rel)

    def seq(self, d, rel, n=None):
        return self.braces(self.items(d, rel, n))

    def scorepart(self, d):
        """Toplevel-ish music."""
        r = self.rng
        k = r.random()
        if k < .4 and self.has("relative"):
            return self.relative(d, False)  # parce doesn't lex e.g. a= as a note at the toplevel
        if k < .5 and self.has("context"):
            return self.join(r.choice(["\\new Staff", "\\new Voice = \"x\"", "\\context Voice"]), self.scorepart(d))
        return self.seq(d, False)

    def relative(self, d, single=True):
        r = self.rng
        start = []
        if r.random() < .6:
            start = [self.pitch()]
        # without start pitch, a single note would be the start pitch
        return self.join("\\relative", *start, self.block(d, True, single and bool(start)))

    def block(self, d, rel, single=True):
        r = self.rng
        if r.random() < .12 and self.has("sim"):
            return self.braces(self.items(d, rel), "<<", ">>")
        return self.arg(d, rel) if single else self.seq(d, rel)

    def item(self, d, rel):
        r = self.rng
        if d <= 0 or r.random() < .62:
            k = r.random()
            if k < .66: return self.note(rel)
            if k < .80: return self.chord(rel)
            if k < .86: return r.choice(["r", "r", "s", "R"]) + self.mdur() + (self.events(False) if r.random() < .3 else "")
            if k < .89 and self.has("skip"): return self.join("\\skip", self.dur())
            if k < .91 and self.has("q"): return "q" + self.mdur()
            if k < .93 and self.has("unpitched"): return self.dur() + self.events(False)
            if k < .95: return "|"
            if k < .955: return r.choice(["\\mark 1", "\\mark 4", "\\mark 3", "\\mark \\default", "\\mark \"c 4\"", "\\mark #2", "\\time #'(2 1) 3/4",
                "\\time 2,2 4/4", "\\ottava 1", "\\ottava #-1", "\\set x = 4"])
            if k < .96: return r.choice(["\\clef bass", "\\bar \"|.\"", "\\time 3/4", "\\stemUp", "\\break"])
            if k < .97 and self.has("tempo"): return self.join("\\tempo", self.dur(False), "=", "60")
            if k < .98 and self.has("partial"): return self.join("\\partial", self.dur())
            if self.has("key"): return self.join("\\key", self.name(), r.choice(["\\major", "\\minor", "\\dorian"]))
            return self.note(rel)
        k = r.randrange(20 + len(self.extra))
        if k >= 20:
            k = self.extra[k - 20]
            if k == "partcombine": return self.join("\\partcombine", self.seq(d - 1, rel), self.seq(d - 1, rel))
            if k == "volta":
                if self.unfolding: return self.note(rel)
                return self.join("\\volta", r.choice(["1", "2", "1,2", "#'(1)", "#1", "4", "3"]), self.arg(d - 1, rel))
            if k == "tuning": return self.join("\\stringTuning", self.braces([self.pitch() for i in range(r.randint(1, 4))], "<", ">"))
            if k == "after": return self.join("\\after", self.dur(False), r.choice(["\\f", "\\!", "\\fermata", "-\\trill", "^\\p"]), self.note(rel) if r.random() < .7 else self.chord(rel))
            if k == "undefined": return "\\undefined"
            if k == "quote": return self.join("\\quoteDuring", "\"x\"", self.seq(d - 1, rel))
            if k == "keep": return self.join(r.choice(["\\keepWithTag", "\\removeWithTag"]), "#'part", self.seq(d - 1, rel))
            if k == "once":
                self.unfolding += 1
                x = self.join(r.choice(["\\unfolded", "\\sequential"]), self.seq(d - 1, rel))
                self.unfolding -= 1
                return x
        if k == 0 and self.has("relative"): return self.relative(d - 1)
        if k == 1 and self.has("fixed"): return self.join("\\fixed", self.pitch(), self.block(d - 1, False))
        if k == 2 and self.has("absolute"): return self.join("\\absolute", self.block(d - 1, False))
        if k == 3 and self.has("transpose"):
            return self.join("\\transpose", self.pitch(), self.pitch(), self.relative(d - 1) if r.random() < .5 and self.has("relative") else self.block(d - 1, False))
        if k == 4 and self.has("tuplet"):
            f = r.choice(["3/2", "5/4", "2/3", "7/8", "3/2"])
            if r.random() < .6:
                args = ["\\tuplet", f] + ([self.dur()] if r.random() < .3 else [])
            else:
                args = ["\\times", r.choice(["2/3", "4/5", "3/2"])]
            return self.join(*args, self.arg(d - 1, rel))
        if k == 5 and self.has("shift"):
            if r.random() < .5:
                return self.join("\\scaleDurations", r.choice(["2/3", "3", "1/2", "#3/4", "#2"]), self.arg(d - 1, rel))
            return self.join("\\shiftDurations", r.choice(["#1", "#-1", "1", "#0", "#2"]), r.choice(["#0", "#1", "0", "1"] if self.adddots else ["#0", "#-1", "#-2", "0"]), self.arg(d - 1, rel))
        if k == 6 and self.has("grace"):
            g = r.choice(["\\grace", "\\acciaccatura", "\\appoggiatura", "\\slashedGrace"])
            return self.join(g, self.note(rel) if r.random() < .4 else self.seq(d - 1, rel))
        if k == 7 and self.has("grace"):
            return self.join("\\afterGrace", *([] if r.random() < .6 else ["3/4"]),
                self.note(rel) if r.random() < .7 else "\\" + r.choice(self.vars) if self.vars and self.has("vars") and r.random() < .4 else self.seq(0, rel, 2), self.seq(0, rel, 2))
        if k in (8, 9) and self.has("repeat"):
            t = r.choice(["volta", "volta", "unfold", "percent", "tremolo"])
            self.unfolding += t == "unfold"
            x = self.join("\\repeat", t if r.random() < .9 else '"%s"' % t, r.choice(["2", "3", "4"]), self.arg(d - 1, rel))
            if t in ("volta",) + self.unfold and r.random() < .5:
                x = self.join(x, "\\alternative", self.braces([self.seq(d - 1, rel, 2) if r.random() >= self.single else self.note(rel) for i in range(2 if not self.unfold else r.choice([1, 2, 2, 3, 4]))]))
            self.unfolding -= t == "unfold"
            return x
        if k in (10, 11) and self.has("sim"):
            n = r.choice([1, 2, 2, 3])
            parts = []
            for i in range(n):
                if i and r.random() < .7:
                    parts.append("\\\\")
                parts.append(self.seq(d - 1, rel) if r.random() < .8 else self.note(rel))
            return self.braces(parts, "<<", ">>")
        if k == 12 and self.has("context"):
            return self.join(r.choice(["\\new Staff", "\\new Voice = \"one\"", "\\new Staff \\with { instrumentName = \"c d\" }", "\\context Voice = \"b\""]),
                self.block(d - 1, rel))
        if k == 13 and self.has("chordmode"): return self.chordmode(d)
        if k == 14 and self.has("lyrics"): return self.lyrics()
        if k == 15 and self.has("drums"): return self.drums()
        if k == 16 and self.has("figures"): return self.figures()
        if k == 17 and self.vars and self.has("vars"): return "\\" + r.choice(self.vars)
        if k == 18 and (rel or "octabs" in self.extra and r.random() < .5) and self.has("octcheck") and self.lastname in pitch_names[self.lang]: return "\\octaveCheck " + self.lastname + self.marks()
        if k == 18 and self.has("skip"): return self.join("\\skip", self.seq(d - 1, rel)) if "skipmusic" not in self.without else self.note(rel)
        if k == 19:
            x = r.random()
            if x < .3 and self.has("language"): return self.language()
            if x < .5: return self.join("\\transposition", self.pitch())
            if x < .7: return "#(display \"c d' e\")"
            if x < .75: return self.join("\\set", "Staff.instrumentName", "=", "\"c' d\"")
            if x < .9: return self.join("\\tag", r.choice(["#'part", "\"part\""]), self.arg(d - 1, rel))
            return self.join(r.choice(["\\simultaneous", "\\simultaneous", "\\sequential"]), self.seq(d - 1, rel))
        return self.seq(d - 1, rel)

    def language(self):
        r = self.rng
        if r.random() < .2:
            # do not change the language
            return r.choice(('\\include "definitions.ily"', '\\include "music.ly"', '\\language "unknown"', '\\include "nederlands.ily"'))
        self.lang = r.choice(QUARTER if self.quarter else LANGS)
        if r.random() < .3 and self.lang in pitch_names and self.lang.isascii():
            return '\\include "%s.ly"' % self.lang
        return '\\language "%s"' % self.lang

    def chordmode(self, d):
        r = self.rng
        items = []
        for i in range(r.randint(1, 4)):
            s = self.name() + r.choice(["", "", "", "'", ","]) + self.mdur()
            if r.random() < .5:
                s += ":" + r.choice(["m", "7", "maj7", "m7.5-", "sus4", "dim"])
            if r.random() < .35:
                s += r.choice(["/", "/+"]) + self.name()
            items.append(s)
            if r.random() < .1:
                items.append("r" + self.mdur())
        return self.join(r.choice(["\\chordmode", "\\chords"]), self.braces(items))

    def lyrics(self):
        r = self.rng
        items = []
        for i in range(r.randint(1, 5)):
            x = r.choice(["la", "word", "é", "c", "d", "\"two words\"", "_"]) + self.mdur()
            k = r.random()
            if k < .1 and self.has("unpitched") and items[-1:] != ["--"]: x = self.dur()
            elif k < .15 and self.has("lyricmarkup"): x = "\\markup bla " + self.mdur()
            elif k < .2 and self.has("skip"): x = self.join("\\skip", self.dur())
            items.append(x)
            if r.random() < .2:
                items.append("--")
        return self.join("\\lyricmode", self.braces(items))

    def drums(self):
        r = self.rng
        items = []
        for i in range(r.randint(1, 5)):
            items.append(r.choice(["bd", "sn", "hh", "hihat", "r", "s"]) + self.mdur())
        return self.join(r.choice(["\\drummode", "\\drums"]), self.braces(items))

    def figures(self):
        r = self.rng
        items = ["<" + r.choice(["6", "6 4", "7 _+", "5-"]) + ">" + self.mdur() for i in range(r.randint(1, 4))]
        return self.join(r.choice(["\\figuremode", "\\figures"]), self.braces(items))

    def document(self, d, n=None):
        """A whole document."""
        r = self.rng
        out = []
        if r.random() < .6:
            out.append('\\version "%s"' % r.choice(["2.24.0", "2.18.2", "2.16.1", "2.12.3", "2.22.2", "2.18", "2.18.0", "2.17", "2.17.97", "2.24"]))
        if self.lang != "nederlands":
            out.append('\\language "%s"' % self.lang)
        for i in range(n or r.randint(1, 3)):
            k = r.random()
            if k < .35 and self.has("vars"):
                name = r.choice(["music", "melody", "foo", "violinOne", "bass-part"])
                v = self.scorepart(d)
                out.append(name + " = " + v)
                if name not in self.vars:
                    self.vars.append(name)
            elif k < .5:
                body = [self.scorepart(d)]
                if r.random() < .5:
                    body.append("\\layout { }")
                if r.random() < .3:
                    body.insert(0, "\\header { title = \"c' d\" }")
                out.append("\\score " + self.braces(body))
            elif k < .6 and self.has("language"):
                out.append(self.language())
                out.append(self.scorepart(d))
            else:
                out.append(self.scorepart(d))
        return "\n".join(out) + r.choice(["", "\n"])
