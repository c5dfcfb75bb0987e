"""Random LilyPond text generator (syntactic breadth).

Produces a list of text tokens; ``G`` (glue) between two tokens forbids
whitespace there.  ``render`` joins the tokens with random whitespace and
comments.  Only input that LilyPond itself would accept as well-formed is
generated here; hostile input is made by mutating these texts (see mutate()).
"""
import random

G = object()        # glue: no whitespace between the neighbours

NOTES = "c d e f g a b cis des es fis ges gis as ais bes cisis deses".split()
DURS = "1 2 4 8 16 32 64 128 \\breve \\longa 4. 8. 2. 4.. 16.".split()
SCALE = ["*2", "*1/2", "*2/3", "*3/4", "*5"]
DYN = r"\f \p \mf \ff \sfz \< \> \!".split()
ART = r"\trill \accent \staccato \fermata \tenuto \prall \arpeggio \glissando \laissezVibrer \repeatTie \startTextSpan \stopTextSpan \startTrillSpan \stopTrillSpan".split()
SIGN = list(".->^_!+")
WORDS = "foo bar music soprano alto tenorVoice intro verseOne".split()
CTX = "Staff Voice Score PianoStaff Lyrics ChordNames".split()
GROBS = ["NoteHead.color", "Stem.direction", "Staff.TimeSignature.stencil", "Slur.thickness", "Score.BarNumber.font-size"]
STRS = ['"a string"', '"x"', '"with \\"quotes\\" in"', '"back\\\\slash"', '""', '"ünïcödé"', '"two words"', '"100%"']
SCMS = ["#'()", "#1", "#-3", "#0.5", "##t", "##f", "#red", "#'symbol", '#"str"', "#(list 1 2 3)", "#'(1 . 2)",
        "#(lambda (x) (+ x 1))", "#`(a ,b ,@c)", "#1/2", "#x1F", "##x1F", "#(ly:make-pitch 0 0 0)", "$foo"]


class LyGen:
    def __init__(self, rng, comments=0.03, size=1.0):
        self.r = rng
        self.comments = comments
        self.size = size

    # -- helpers
    def c(self, seq): return self.r.choice(seq)
    def p(self, x): return self.r.random() < x
    def many(self, f, lo, hi):
        out = []
        for _ in range(self.r.randint(lo, hi)):
            out += self.comment()
            out += f()
        return out

    def comment(self):
        """A comment on its own, between two complete items of a list."""
        if self.comments and self.p(self.comments):
            return [self.c(["%{ comment %}", "%{%}", "%{ a\n b %}", "% line comment\n", "%\n"])]
        return []

    # -- leaf values
    def string(self): return [self.c(STRS)]
    def scheme(self): return [self.c(SCMS)]
    def num(self): return [str(self.r.randint(0, 120))]
    def symbol(self): return [self.c(WORDS)]

    def pitch(self, check=False):
        out = [self.c(NOTES)]
        if self.p(.5): out += [G, self.c(["'", "''", ",", ",,", "'''"])]
        if check:
            if self.p(.1): out += [G, self.c("!?")]
            if self.p(.05): out += [G, "=", G, self.c(["'", ",", "''"])]
        return out

    def dur(self):
        out = [self.c(DURS)]
        if self.p(.15): out += [G, self.c(SCALE)]
        return out

    def post(self, d=0):
        k = self.r.randrange(14)
        if k == 0: return [self.c("-^_"), G, self.c(SIGN)]
        if k == 1: return [self.c("-^_"), G, str(self.r.randint(1, 5))]
        if k == 2: return [self.c(DYN)]
        if k == 3: return [self.c(ART)]
        if k == 4: return [self.c("^_-"), G] + self.string()
        if k == 5: return [self.c("^_-"), G] + self.markup(2)
        if k == 6: return [self.c(["(", ")", "[", "]", "~", r"\(", r"\)"])]
        if k == 7: return [self.c("^_-"), G, self.c(["(", "[", "~"])]
        if k == 8: return [r"\=", G, self.c(["1", "2", "foo"]), G, self.c(["(", ")"])]
        if k == 9: return ["-", G, r"\tweak", self.c(["color", "Slur.color", "font-size"])] + self.c([["#red"], ["#3"], ["5"], ["1"], ["#'(1 . 2)"]]) + ["-", G, self.c(".>^")]
        if k == 10: return [self.c("^_"), G, self.c(ART[:6])]
        if k == 11: return [":", G, self.c(["8", "16", "32"])]
        if k == 12: return [r"\noBeam"]
        return ["-", G, "."]

    def posts(self):
        out = []
        for _ in range(self.c([0, 0, 0, 1, 1, 2])):
            out += self.post()
        return out

    def note(self):
        out = self.pitch(True)
        if self.p(.6): out += [G] + self.dur()
        return out + self.posts()

    def rest(self):
        k = self.r.randrange(6)
        if k == 0:
            out = self.pitch()
            if self.p(.6): out += [G] + self.dur()
            return out + [r"\rest"]
        if k == 1: return [r"\skip"] + self.dur()
        out = [self.c("rRs")]
        if self.p(.6): out += [G] + self.dur()
        return out

    def chord(self):
        out = ["<"] + self.many(self.cnote, 1, 4) + [">"]
        if self.p(.6): out += [G] + self.dur()
        return out + self.posts()

    def cnote(self):
        out = self.pitch(True)
        if self.p(.1): out += [self.c("-^_"), G, str(self.r.randint(1, 5))]
        return out

    def musiclist(self, d):
        n = max(1, int(5 * self.size))
        if self.p(.8):
            return ["{"] + self.many(lambda: self.music(d), 0, n) + ["}"]
        out = ["<<"]
        out += self.musiclist(d)
        for _ in range(self.r.randint(0, 2)):
            if self.p(.5): out += [r"\\"]
            out += self.musiclist(d)
        return out + [">>"]

    def simple(self, d):
        k = self.r.randrange(12)
        if k < 6: return self.note()
        if k < 8: return self.rest()
        if k < 10: return self.chord()
        if k == 10: return ["q"] + ([G] + self.dur() if self.p(.4) else [])
        return ["|"]

    def music(self, d=0):
        if d <= 0 or self.p(.7):
            return self.simple(d)
        d -= 1
        return self.c(self.COMPLEX)(self, d)

    def marg(self, d):
        """A single music argument"""
        if self.p(.1): return ["\\" + self.c(WORDS)]
        if self.p(.1): return self.pitch() + [G, "4"]
        return self.musiclist(d)

    # complex productions
    def m_list(self, d): return self.musiclist(d)
    def m_relative(self, d):
        return [r"\relative"] + (self.pitch() if self.p(.6) else []) + self.musiclist(d)
    def m_absolute(self, d): return [r"\absolute"] + self.musiclist(d)
    def m_fixed(self, d): return [r"\fixed"] + self.pitch() + self.musiclist(d)
    def m_transpose(self, d): return [r"\transpose"] + self.pitch() + self.pitch() + self.marg(d)
    def m_key(self, d): return [r"\key"] + [self.c(NOTES)] + [self.c([r"\major", r"\minor", r"\dorian", r"\lydian"])]
    def m_time(self, d): return [r"\time", self.c(["3/4", "4/4", "6/8", "2/2", "12/8"])]
    def m_clef(self, d): return [r"\clef", self.c(["treble", "bass", '"treble_8"', "alto"])]
    def m_tempo(self, d):
        return [r"\tempo"] + self.c([self.string(), ["4", "=", "120"], self.string() + ["8.", "=", "60"], ["2", "=", "72"]])
    def m_partial(self, d): return [r"\partial"] + self.dur()
    def m_times(self, d): return [r"\times", self.c(["2/3", "4/5", "3/2"])] + self.marg(d)
    def m_tuplet(self, d): return [r"\tuplet", self.c(["3/2", "5/4", "7/8"])] + ([self.c(["4", "8"])] if self.p(.3) else []) + self.musiclist(d)
    def m_scaled(self, d): return [r"\scaleDurations", self.c(["2/3", "1/2", "4"])] + self.musiclist(d)
    def m_shifted(self, d): return [r"\shiftDurations"] + self.c([["#1", "#0"], ["#-1", "#1"], ["1", "0"]]) + self.musiclist(d)
    def m_grace(self, d): return [self.c([r"\grace", r"\acciaccatura", r"\appoggiatura", r"\slashedGrace"])] + self.marg(d)
    def m_after(self, d): return [r"\afterGrace"] + (["3/4"] if self.p(.3) else []) + self.musiclist(0) + self.musiclist(0)
    def m_repeat(self, d):
        out = [r"\repeat", self.c(["unfold", "volta", "percent", "tremolo"]), str(self.r.randint(1, 5))] + self.musiclist(d)
        if self.p(.4): out += [r"\alternative", "{"] + self.many(lambda: self.musiclist(0), 1, 3) + ["}"]
        return out
    def m_new(self, d):
        out = [self.c([r"\new", r"\context"]), self.c(CTX)]
        if self.p(.4): out += ["=", self.c(['"name"', "nm"])]
        if self.p(.3): out += [r"\with", "{"] + self.many(self.ctxmod, 0, 3) + ["}"]
        return out + self.musiclist(d)
    def ctxmod(self):
        return self.c([
            lambda: [r"\consists", self.c(['"Foo_engraver"', "Bar_engraver"])],
            lambda: [r"\remove", '"Time_signature_engraver"'],
            lambda: [r"\override"] + [self.c(GROBS[:2]), "="] + self.scheme(),
            lambda: [self.c(["instrumentName", "fontSize"]), "="] + self.c([self.string(), self.scheme(), self.num()]),
            lambda: [r"\accepts", '"Voice"'],
            lambda: [r"\alias", '"Staff"'],
            lambda: [r"\name", '"MyStaff"'],
            lambda: [r"\denies", '"Lyrics"'],
            lambda: [r"\defaultchild", '"Voice"'],
        ])()
    def m_change(self, d): return [r"\change", "Staff", "=", self.c(['"up"', "down"])]
    def m_override(self, d):
        return [r"\override", self.c(GROBS), "="] + self.c([self.scheme, self.string, self.num])()
    def m_set(self, d): return [r"\set", self.c(["Staff.instrumentName", "fontSize"]), "="] + self.c([self.scheme, self.string, self.num])()
    def m_unset(self, d): return [r"\unset", self.c(["Staff.instrumentName", "fontSize"])]
    def m_revert(self, d): return [r"\revert", self.c(GROBS)]
    def m_once(self, d): return [r"\once"] + self.m_override(d)
    def m_omit(self, d): return [self.c([r"\omit", r"\hide"]), self.c(["Stem", "Staff.Clef", "NoteHead"])]
    def m_undo(self, d): return [r"\undo"] + self.m_omit(d)
    def m_bar(self, d): return [r"\bar", self.c(['"|."', '"||"', '"|:"'])]
    def m_mark(self, d): return [r"\mark"] + self.c([[r"\default"], self.string(), ["3"], self.markup(1), ["#5"]])
    def m_toggle(self, d): return [self.c([r"\break", r"\noBreak", r"\pageBreak", r"\noPageBreak", r"\voiceOne", r"\oneVoice", r"\stemUp", r"\stemNeutral", r"\slurDashed", r"\autoBeamOff", r"\breathe", r"\cadenzaOn", r"\tieDown", r"\slurUp", r"\tupletUp", r"\melismaEnd", r"\melisma", r"\inStaffSegno", r"\arpeggioArrowUp"])]
    def m_ident(self, d): return ["\\" + self.c(WORDS)]
    def m_octcheck(self, d): return [r"\octaveCheck"] + self.pitch()
    def m_ottava(self, d): return [r"\ottava", self.c(["#1", "#-1", "1", "0"])]
    def m_transposition(self, d): return [r"\transposition"] + self.pitch()
    def m_seq(self, d): return [self.c([r"\sequential", r"\simultaneous"])] + ["{"] + self.many(lambda: self.music(d), 0, 3) + ["}"]
    def m_lyrics(self, d):
        return [self.c([r"\lyricmode", r"\addlyrics", r"\lyrics"])] + self.lyriclist()
    def m_lyricsto(self, d): return [r"\lyricsto", '"voice"'] + self.lyriclist()
    def lyriclist(self):
        def w():
            k = self.r.randrange(9)
            if k < 4: return [self.c(["Ky", "rie", "e", "lei", "son", "a_b", "it's"])] + ([G, self.c(["4", "8.", "2"])] if False else [])
            if k == 4: return ["--"]
            if k == 5: return ["__"]
            if k == 6: return ["_"]
            if k == 7: return self.string() + ([self.c(["4", "8", "2."])] if self.p(.4) else [])
            return [self.c(["la4", "fa8", "sol2."])]
        return ["{"] + self.many(w, 0, 6) + ["}"]
    def m_drums(self, d):
        return [self.c([r"\drummode", r"\drums"]), "{"] + self.many(lambda: [self.c(["bd", "sn", "hh", "tomh", "cymc"])] + ([G] + self.dur() if self.p(.5) else []) + ([self.c(DYN[:4])] if self.p(.2) else []), 0, 5) + ["}"]
    def m_chords(self, d):
        def ch():
            out = [self.c(NOTES[:7])]
            if self.p(.6): out += [G, self.c(["1", "2", "4", "4."])]
            if self.p(.6): out += [G, ":", G, self.c(["m", "7", "maj7", "m7", "dim", "sus4", "m7.9+", "7^5", "13.11"])]
            if self.p(.25): out += [G, self.c(["/", "/+"]), G, self.c(NOTES[:7])]
            return out
        return [self.c([r"\chordmode", r"\chords"]), "{"] + self.many(ch, 0, 5) + ["}"]
    def m_figures(self, d):
        def fg():
            def st():
                o = [self.c(["5", "6", "7", "3", "_"])]
                if self.p(.4): o += [G, self.c("+-!")]
                if self.p(.2): o += [G, self.c(["\\+", "/", "\\\\"])]
                return o
            body = self.many(st, 1, 3)
            if self.p(.2): body = ["["] + body + ["]"]
            return ["<"] + body + [">"] + ([G, self.c(["4", "2", "1"])] if self.p(.6) else [])
        return [self.c([r"\figuremode", r"\figures"]), "{"] + self.many(fg, 0, 4) + ["}"]
    def m_notemode(self, d): return [r"\notemode"] + self.musiclist(d)
    def m_tag(self, d): return [self.c([r"\tag", r"\keepWithTag", r"\removeWithTag"]), self.c(["#'foo", "bar", '"x"'])] + self.musiclist(d)
    def m_pushtag(self, d): return [self.c([r"\pushToTag", r"\appendToTag"]), "#'foo"] + self.musiclist(0)
    def m_partcombine(self, d): return [r"\partcombine"] + self.musiclist(d) + self.musiclist(d)
    def m_unfold(self, d): return [r"\unfoldRepeats"] + self.musiclist(d)
    def m_quote(self, d): return [r"\quoteDuring", self.c(['"flute"', "#'x", "foo"][:1])] + self.musiclist(d)
    def m_applyc(self, d): return [r"\applyContext"] + ["#(lambda (x) x)"]
    def m_applym(self, d): return [r"\applyMusic", "#foo"] + self.musiclist(d)
    def m_shape(self, d): return [r"\shape", "#'((0 . 0))", "Slur"]
    def m_label(self, d): return [r"\label", "#'lab"]
    def m_temporary(self, d): return [r"\temporary"] + self.m_override(d)

    # less common constructs
    def m_addquote(self, d): return [r"\addQuote", '"flute"'] + self.musiclist(d)
    def m_applyo(self, d): return [r"\applyOutput", "#'Staff", "#(lambda (a b c) a)"]
    def m_pageturn(self, d): return [self.c([r"\pageTurn", r"\noPageTurn", r"\allowPageTurn"])]
    def m_taggroup(self, d): return [r"\tagGroup", "#'(a b c)"]
    def m_unfolded(self, d): return [r"\unfolded"] + self.musiclist(d)
    def m_volta(self, d): return [r"\volta", self.c(["#'(1 3)", "#'(2)"])] + self.musiclist(d)
    def m_stringtuning(self, d): return [r"\stringTuning", "<", "c,", "g,", "d", "a", ">"]
    def m_dash(self, d): return [self.c([r"\slurDashPattern", r"\tieDashPattern", r"\phrasingSlurDashPattern"]), self.c(["0.7", "#0.7"]), self.c(["0.5", "#3"])]
    def m_vshape(self, d): return [r"\vshape", "#'((0 . 0) (1 . 1))", "Slur"]
    def m_barenote(self, d): return self.note() + self.dur() + self.posts()
    def m_ligature(self, d): return self.note() + [r"\["] + self.note() + [r"\]"]
    def m_pes(self, d): return self.pitch() + [r"\~"] + self.pitch()
    def m_post2(self, d):
        r"""A note with many events after it, tightly packed or not."""
        out = self.pitch(True)
        if self.p(.5): out += [G] + self.dur()
        for _ in range(self.r.randint(2, 5)):
            if self.p(.5): out += [G]
            out += self.post()
        return out
    def m_stringnum(self, d): return self.note() + [G, self.c(["\\1", "\\2", "^\\3", "_\\4"])]
    def m_empty(self, d): return ["<", ">"] + self.c([[r"\f"], ["^", G, '"text"'], ["^", G] + self.markup(1), [r"\p", "^", G, '"x"']])
    def m_paren(self, d): return self.note() + ["-", G, r"\parenthesize", "-", G, "."] + self.note()
    def m_paren2(self, d): return [r"\parenthesize"] + self.note()
    def m_lig2(self, d): return [r"\["] + self.note() + self.note() + [r"\]"]
    def m_bend(self, d): return [self.c("cdefg"), "-", G, r"\bendAfter", self.c(["#4", "#-4"])]
    def m_varmusic(self, d): return ["\\" + self.c(["foo.bar", "foo.1", "music.x.y"])]
    def m_multiscale(self, d): return self.pitch() + [G, self.c(["2*2/3*3/4", "4.*2*1/3", "8*5/4*4"])]
    def m_etc(self, d): return [r"\tempo", "4.", "=", "60"] + self.c([[], [G, "-", G, "72"], ["-", "72"]])
    def m_clefq(self, d): return [r"\clef", self.c(['"bass^8"', '"G_(8)"', "percussion", '"tab"'])]
    def m_keywords(self, d): return [self.c([r"\sustainOn", r"\sustainOff", r"\dynamicUp", r"\phrasingSlurDotted", r"\textLengthOn", r"\textLengthOff", r"\mergeDifferentlyHeadedOn", r"\stemDown", r"\tieDashed", r"\cadenzaOff", r"\voiceThree", r"\slurDotted"])]
    def m_slyr(self, d): return ["<<"] + self.m_new(max(0, d)) + self.new_lyrics() + [">>"]
    def new_lyrics(self): return [r"\new", "Lyrics", r"\lyricsto", '"v"'] + self.lyriclist()
    def m_alt2(self, d):
        return [r"\repeat", "volta", "2"] + self.musiclist(d) + [r"\alternative", "{", "{"] + self.simple(0) + ["}", "{"] + self.simple(0) + ["}", "}"]
    def m_schemely(self, d):
        return [self.c(["#(music-map foo #{", "#(list #{"]) ] + self.musiclist(0) + ["#}", ")"]
    def m_markuplist(self, d):
        return self.note() + ["^", G, r"\markup", r"\column", "{", "a", "b", "}"]
    def m_acc(self, d):
        return self.pitch() + [G, self.c("!?")] + [G] + self.dur() + [self.c(["-", "^", "_"]), G, self.c(["4", "\\p", "\\markup x", '"t"'])]
    def m_propset(self, d):
        return [self.c([r"\set", r"\once\set"]), "Score.currentBarNumber", "=", "#112"]
    def m_propalist(self, d):
        return [r"\override", "Staff.VerticalAxisGroup.staff-staff-spacing.basic-distance", "=", "#10"]
    def m_tweakm(self, d):
        return [r"\tweak", self.c(["color", "Stem.color"]), self.c(["#red", "#3", "2", "1.5"])] + self.note()

    # -- markup
    def markup(self, d):
        k = self.r.randrange(4)
        if k == 0: return [r"\markup", "{"] + self.many(lambda: self.mk(d), 0, 4) + ["}"]
        if k == 1: return [r"\markup"] + self.string()
        if k == 2: return [r"\markup"] + self.mkcmd(d)
        return [r"\markup", self.c(["word", "text"])]
    def mk(self, d):
        k = self.r.randrange(6)
        if k < 3: return [self.c(["word", "text", "Op.", "1234", "a-b"])]
        if k == 3: return self.string()
        if k == 4 and d > 0: return self.mkcmd(d - 1)
        if k == 5 and d > 0: return ["{"] + self.many(lambda: self.mk(d - 1), 0, 3) + ["}"]
        return ["w"]
    def mkcmd(self, d):
        k = self.r.randrange(7)
        if k == 0: return [r"\bold"] + self.mk(d)
        if k == 1: return [r"\italic"] + self.string()
        if k == 2: return [r"\with-color", "#red"] + self.mk(d)
        if k == 3: return [r"\column", "{"] + self.many(lambda: self.mk(d), 0, 3) + ["}"]
        if k == 4: return [r"\raise", "#0.5"] + self.mk(d)
        if k == 5 and d > 0: return [r"\score", "{"] + self.musiclist(0) + ["}"]
        return [r"\fontsize", "#2"] + self.string()

    # -- toplevel
    def assignment(self, d):
        name = self.c([["foo"], ["bar"], ["music"], ['"quoted name"'], ["foo.bar"], ["soprano"], ["intro"]])
        val = self.c([
            lambda: self.musiclist(d), lambda: self.string(), lambda: self.scheme(),
            lambda: self.num(), lambda: self.markup(2), lambda: self.m_relative(d),
            lambda: self.m_lyrics(d), lambda: self.m_new(d), lambda: ["0.5"], lambda: self.m_chords(d)])()
        return name + ["="] + val

    def hvar(self):
        n = self.c(["title", "composer", "subtitle", "tagline", "opus", "myfield"])
        return [n, "="] + self.c([self.string, self.scheme, lambda: self.markup(2)])()

    def header(self, d): return [r"\header", "{"] + self.many(self.hvar, 0, 4) + ["}"]
    def paper(self, d):
        def pv():
            return [self.c(["top-margin", "indent", "line-width", "ragged-right", "system-count"]), "="] + self.c([
                ["2", G, r"\mm"], ["1.5", G, r"\cm"], ["##t"], ["3"], ["10", r"\pt"], ["#2"], ["0.25", r"\in"]])
        return [r"\paper", "{"] + self.many(pv, 0, 3) + ["}"]
    def layout(self, d):
        def lv():
            return self.c([
                lambda: ["indent", "=", "0", r"\mm"],
                lambda: ["ragged-right", "=", "##t"],
                lambda: [r"\context", "{", r"\Staff"] + self.many(self.ctxmod, 0, 2) + ["}"],
            ])()
        return [r"\layout", "{"] + self.many(lv, 0, 3) + ["}"]
    def midi(self, d): return [r"\midi", "{"] + (self.m_tempo(0) if self.p(.5) else []) + ["}"]
    def score(self, d):
        out = [r"\score", "{"] + self.musiclist(d)
        if self.p(.4): out += self.header(d)
        if self.p(.5): out += self.layout(d)
        if self.p(.3): out += self.midi(d)
        return out + ["}"]
    def book(self, d):
        return [self.c([r"\book", r"\bookpart"]), "{"] + self.many(lambda: self.c([self.header, self.paper, self.score, lambda d: self.markup(2)])(d), 0, 3) + ["}"]
    def toplevel(self, d):
        return self.c([self.assignment, self.assignment, self.assignment, self.score, self.header, self.paper, self.layout,
            self.book, self.musiclist, self.m_relative, lambda d: self.markup(2), self.m_new,
            lambda d: [r"\language", self.c(['"nederlands"', '"english"'])],
            lambda d: [r"\include", '"file.ily"'],
            lambda d: self.scheme(), self.musiclist, self.m_relative])(d)

    def document(self, d=3, n=4):
        out = []
        if self.p(.5): out += [r"\version", self.c(['"2.18.2"', '"2.22.0"', '"2.12.3"'])]
        for _ in range(self.r.randint(1, n)):
            out += self.comment()
            out += self.toplevel(d)
        return self.render(out)

    # -- rendering
    def ws(self):
        return self.c([" ", " ", " ", "\n", "  ", "\n  ", "\n\n"])

    TIGHT = {"{", "}", "<<", ">>", "(", ")", "[", "]", "|"}

    def tight(self, a, b):
        """Whether the whitespace between tokens a and b may be left out."""
        if not a or a[-1:] == "\n" or a[0] in "#$%" or b[0] in "#$%":
            return False
        if a[-1] in "-_^=\\<>" or b[0] in "-_^=<>":
            return a in ("{", "}") and b in ("<<", ">>") or b in ("{", "}") and a in ("<<", ">>")
        if b in "()[]|" and a not in self.TIGHT and a[-1] not in "',":
            return False    # could become part of a markup word
        return a in self.TIGHT or b in self.TIGHT

    def render(self, toks):
        out = []
        glue = True
        dense = self.r.random() < .25
        for t in toks:
            if t is G:
                glue = True
                continue
            if not glue and not (dense and out and self.p(.7) and self.tight(out[-1], t)):
                out.append(self.ws())
            out.append(t)
            glue = False
        if self.p(.5): out.append("\n")
        if self.p(.1): out.insert(0, "\n")
        return "".join(out)


LyGen.COMPLEX = [getattr(LyGen, n) for n in dir(LyGen) if n.startswith("m_")]

def _names():
    return [n for n in dir(LyGen) if n.startswith("m_")]


def mutate(rng, text, n=None):
    """Hostile edits of a text: delete/duplicate/insert/truncate fragments."""
    junk = ["{", "}", "<<", ">>", "<", ">", "\"", "%{", "%}", "#", "#(", ")", "\\", "\\markup", "\\score", "=", "'",
            "|", "c4", "\\relative", "\\header {", "\\lyricmode {", "#{", "#}", "~", "\\=", "-", "^", "\\tweak", "\\rest",
            ":", "*", "/", ".", "4", "\\key", "\\time", "\\tuplet", "\\repeat", "<c e", "\\chordmode {", "/+", "\\figures {",
            "\\set", "\\override", "\\tempo", "\\language", "\\version", "!", "?", "--", "\u00e9", "\\with {", "\\paper {", "\n", " "]
    for _ in range(n or rng.randint(1, 4)):
        k = rng.randrange(5)
        L = len(text)
        if k == 0 and L:
            a = rng.randrange(L); b = min(L, a + rng.choice([1, 1, 2, 5, 20])); text = text[:a] + text[b:]
        elif k == 1 and L:
            a = rng.randrange(L); b = min(L, a + rng.choice([1, 3, 10])); c = rng.randrange(L); text = text[:c] + text[a:b] + text[c:]
        elif k == 2:
            a = rng.randint(0, L); text = text[:a] + rng.choice(junk) + text[a:]
        elif k == 3 and L:
            text = text[:rng.randrange(L)]
        elif L:
            a = rng.randint(0, L); text = text[:a] + " " + rng.choice(junk) + " " + text[a:]
    return text


# after these parce only reads the block if the bracket follows directly; after
# an assignment it drops a number
AFTER = {"\\header", "\\paper", "\\layout", "\\midi", "\\score", "\\book", "\\bookpart", "\\context", "\\with", "=",
         "\\lyricsto"}


class TokGen(LyGen):
    """Keeps the tokens."""
    def render(self, toks):
        self.toks = toks
        return super().render(toks)


def comment_texts(rng):
    """Yield (plain text, None, None) and texts with comments inserted,
    with the tokens before the comments and the slot numbers."""
    g = TokGen(rng, comments=0, size=rng.choice([.5, 1]))
    g.document(rng.randint(1, 3), rng.randint(1, 3))
    parts = []          # (token, glued to the previous)
    glue = True
    for t in g.toks:
        if t is G:
            glue = True
        else:
            parts.append((t, glue))
            glue = False
    slots = []
    scheme = False
    for i, (t, gl) in enumerate(parts):
        if t.startswith(("#", "$")) and "#{" in t:
            scheme = True       # comments are different in Scheme, not here
        if i and not gl and not scheme and parts[i-1][0] not in AFTER and "#}" not in parts[i-1][0] \
                and not (parts[i-1][0] == "-" and t[0].isdigit()):
            slots.append(i)
        if "#}" in t:
            scheme = False
    if not slots:
        return
    yield "".join(t if gl else " " + t for t, gl in parts), None, None
    for k in range(3):
        chosen = rng.sample(slots, min(len(slots), rng.choice([1, 1, 2])))
        number = iter(range(100))
        comments = [" ".join(rng.choice(["%%{ c4 %d%%}", "%%{ } %d%%}", "%% { c'%d\n", "%% \"x%d\n"]) % next(number)
                             for _ in range(rng.choice([1, 1, 1, 2, 3]))) for _ in chosen]
        c = dict(zip(chosen, comments))
        text = "".join((" " + c[i] if i in c else "") + (t if gl else " " + t) for i, (t, gl) in enumerate(parts))
        yield text, [parts[i-1][0] for i in sorted(chosen)], chosen
