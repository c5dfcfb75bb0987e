r"""C03: text -> tree -> text -> tree."""
import contextlib
import io

from vt.core import Stream
from vt.lygen import LyGen, comment_texts
from vt import lytext
from vt.util import tree_diff, sig
from quickly.dom import read, lily, base, element

PROPERTY = "C03"
RULE = ("Grammar-generated LilyPond documents over all constructs the library has elements for, with comments and random "
        "or minimal whitespace, plus a corpus of curated snippets placed in generated surroundings. Monitors: the tree "
        "read from the written text equals the first (own structural comparison); the second writing is identical; and, "
        "independent of the reader, the written text has the same characters outside whitespace as the input, compared "
        "with an own tokenizer (strings, comments, other); and a comment put between any two tokens changes nothing in the "
        "tree but adds the comment. Non-trivial: at least 8 elements; distinct by tree shape.")
ASSUMPTIONS = ["a duration scaling of 1 is the same as none, and a product of scalings the same as its value; "
               "hexadecimal digits may change case; these are normalized before comparing"]
NEED = ("roundtrip", "conserved", "stable", "origin variant", "comments kept", "strings kept", "snippet",
        "comment inserted", "comment after command", "comment after word", "comment after number", "comment after sign")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def drop_unit_scaling(tree):
    for n in list(tree // lily.DurationScaling):
        if n.head == 1:
            n.parent.remove(n)
    return tree


def roundtrip(mon, text, key=""):
    d = quiet(read.lily_document, text)
    w = d.write()
    d2 = quiet(read.lily_document, w)
    diff = tree_diff(drop_unit_scaling(d.copy()), drop_unit_scaling(d2.copy()))
    mon.check(diff is None, key or "reread", "tree differs after writing and reading: %s" % diff, text=text, written=w)
    mon.ev("roundtrip")
    a, b = lytext.plain(text), lytext.plain(w)
    if a != b:
        mon.fail(key or "not-conserved", "written text is not the original: " + lytext.first_diff(a, b), text=text, written=w)
    mon.ev("conserved")
    for kind, evname in (("string", "strings kept"), ("block", "comments kept"), ("line", "comments kept")):
        x = [t for k, t in lytext.skeleton(text) if k == kind]
        y = [t for k, t in lytext.skeleton(w) if k == kind]
        mon.check(x == y, key or "literal-changed", "%s changed" % kind, before=x, after=y, text=text, written=w)
        mon.ev(evname, len(x))
    w2 = d2.write()
    mon.check(w2 == w, key or "not-stable", "writing again gives other text", first=w, second=w2, text=text)
    mon.ev("stable")
    return d, w


def case_document(rng, mon):
    g = LyGen(rng, comments=rng.choice([0, .03, .1]), size=rng.choice([.5, 1, 1, 2]))
    text = g.document(rng.randint(1, 4), rng.randint(1, 5))
    d, w = roundtrip(mon, text)
    o = quiet(read.lily_document, text, True)
    diff = tree_diff(d, o)
    mon.check(diff is None, "origin-tree", "tree with origin differs: %s" % diff, text=text)
    mon.check(o.write() == w, "origin-write", "tree with origin writes differently", text=text)
    mon.ev("origin variant")
    n = sum(1 for _ in d.descendants())
    mon.ev("elements", n)
    for e in d.descendants():
        mon.ev("type " + type(e).__name__)
    if n >= 8:
        mon.nontrivial(sig(d))
    mon.sample(text)


# name, text.  Every one of these is input LilyPond accepts.
SNIPPETS = [l.split(" :: ", 1) for l in r'''
empty-chord :: { <>\f c4 <>^"text" d }
zero-skip :: { s1*0\f c4 }
parenthesize-event :: { c4-\parenthesize -. d }
parenthesize-note :: { \parenthesize c4 d }
markup-events :: { c4 ^\markup \bold "x" _\markup { a b } d }
tweak-event :: { c4-\tweak color #red -. d4 -\tweak Slur.color #red ( e) }
tweak-note :: { c4 \tweak NoteHead.color #red d <c \tweak color #red e g>4 }
string-number :: { <c\1 e\2>4 g\3 a^\4 }
fingering :: { <c-1 e-3 g^5>4 a_2 }
tremolo :: { c'4:16 d:32 e: f }
rest-text :: { R1*4^\markup { x } R1*4\fermataMarkup }
tempo-range :: { \tempo 4 = 60 - 72 c }
tempo-text :: { \tempo "Allegro" 4. = 120 c4 \tempo \markup { \bold x } d }
mark :: { \mark \markup { \musicglyph #"scripts.segno" } c \mark #1 d \mark \default }
override-old :: { \override NoteHead #'color = #red c4 \override Staff.NoteHead #'color = #red d }
set :: { \set Staff.midiInstrument = #"cello" \set Score.repeatCommands = #'((volta "2") end-repeat) }
extra-offset :: { \once \override Score.MetronomeMark.extra-offset = #'(0 . 3) c4 }
hairpins :: { c4\<d\!e\>f\! c\cresc d\dim e\! }
script-spacing :: { c4 -> -. ^. _- ->( d) }
tie-number :: { c4 ~ 4 ~ 8 d }
addlyrics :: \score { << \new Staff { c } \addlyrics { la la } >> \layout {} }
piano :: \score { \new PianoStaff << \new Staff = "up" { c } \new Staff = "down" { \clef bass c } >> }
lyric-durations :: \new Lyrics \lyricmode { Ky4 -- ri -- e2 __ "e le"4 -- i -- son }
lyric-set :: \new Lyrics \lyricsto "a" { \set stanza = "1. " la la \markup \bold x }
chords :: \chords { c1:m7 d2:7.9+/fis e c2:maj7^3 d:sus4 r4 s c:m/+g }
figures :: \figures { <6 4+>4 <7- 5!> <_> <[6 5]> <6\\ 5/ 4\+> }
drums :: \drums { bd4 sn8-> hh <bd hh>4 }
paper-scheme :: \paper { #(set-paper-size "a4") indent = 2\cm ragged-right = ##t system-system-spacing.basic-distance = #12 }
paper-old :: \paper { system-system-spacing #'basic-distance = #12 }
layout-context :: \layout { \context { \Staff \remove "Time_signature_engraver" \override VerticalAxisGroup.foo = #(1 . 2) } }
music-function :: foo = #(define-music-function (parser location x) (ly:music?) #{ { $x } #})
scheme-string :: #(define x "a \"quoted\" \\ string") { c }
scheme-comment :: #(define x ; comment
  1) { c }
markup-lines :: foo = \markup { \column { a b } \line { c } }
numbered-var :: foo.1 = { c } foo.bar.2 = { \foo.1 \bar "|." }
dollar :: { $foo #foo \foo }
alternative :: { \repeat volta 2 { c } \alternative { { d } { e } } \repeat "unfold" 4 { c16 d } }
tuplets :: { \times 2/3 { c8 d e } \tuplet 3/2 4 { c8 d e } }
graces :: { \grace c16 d4 \acciaccatura { e8 } f4 \afterGrace g1 { a16 b } \afterGrace 15/16 g1 { a16 b } }
time-list :: { \time #'(2 3) 5/8 c \time 3/4 d }
checks :: { c'='4 d!? e?8. f=,,2 }
long-durations :: { c\breve d\longa e\maxima }
bare-durations :: { c4. 8 d 4 }
skips :: { \skip 4 \skip 1*2 s2 }
pitched-rest :: { c4\rest d8\rest e,\rest }
cue :: { \cueDuring #"flute" #UP { R1 } \quoteDuring "x" { s1 } }
after :: { \after 4 \f c1 \after 2. ^\turn c1 }
shape :: { \shape #'((0 . 0)) Slur c4( d) c4-\shape #'((0 . 0)) ( d) }
tag-event :: { c4-\tag #'a -. d\tag #'b -> \tag #'(a b) e }
book :: \book { \bookOutputName "x" \score { { c } } } \bookpart { \header { } \score { { c } } }
midi :: \score { { c } \midi { \context { \Score tempoWholesPerMinute = #(ly:make-moment 60 4) } } }
markup-score :: \markup { \score { { c } \layout { } } \wordwrap-string #"foo bar" }
markuplist :: \markuplist { \wordwrap-lines { a b } }
markup-args :: \markup { \concat { a "b" } \hspace #2 \fontsize #-2 x \with-color #(x11-color 'red) y \override #'(a . b) z }
markup-mixed :: \markup { \fill-line { \null a } "quoted \" x" \char ##x20AC }
markup-comment :: \markup { a % comment
 b %{ x %} c }
two-voices :: { << { c } \\ { d } >> << c e >> << { c } \new Staff { d } >> }
contexts :: { \new Voice = "a" { c } \context Voice = "a" { d } \context Staff c \change Staff = up }
spanner-ids :: { c\=1( d\=1) e\=a( f\=a) g^\=1( a\=1) }
ligatures :: { \[ c d \] e \~ f }
postevent-var :: foo = ^\markup x bar = -\tweak color #red ^"x" { c }
string-name :: "quoted" = { c } { \"quoted" }
push-tag :: { \pushToTag #'a c { d } \keepWithTag #'(a b) \removeWithTag a { c } }
with-prop :: { \withMusicProperty #'to-barline ##t c }
accidental-style :: { \accidentalStyle modern \accidentalStyle Staff.modern \pointAndClickOff }
time-subdivide :: { \time 2,3 5/8 c }
direction-mix :: { e4-\markup x ^"a" _"b" -"c" }
parallel :: { \parallelMusic voiceA,voiceB { c | d } }
function-args :: { \foo "x" #3 { c } \foo 3 \foo { c } { d } \foo #1 #'x "y" c }
toplevel-function :: \foo "x" \pointAndClickOff \bar
event-function :: { c4^\foo "x" d \bendAfter #4 }
layout-vars :: \layout { indent = 0\mm ragged-last = ##f \layoutfoo }
partial-melisma :: { \partial 8 \melisma c \melismaEnd d }
english :: \language "english" { cs4 df' e-flat }
scaled :: { c4*2/3 d4*2/3*3/4 e1*5 R1*1 }
nested-comments :: %{ a % b
 %} { c % d %{ e
 f } % end
comment-between :: { c %{ a %} 4 %{ b %} -. %{ c %} d }
unicode :: \header { title = "Ünï — çödé 音楽" } \markup { Ünï 音 } { c ^"é" }
lyric-tie :: \lyricmode { a~b c_d "e f" g -- h __ _ i }
lyric-nested :: \lyricmode { a << { b } { c } >> \repeat unfold 2 { d } }
chord-rep :: { <c e>4 q8 q\f q( q) }
octave-check :: { \octaveCheck c' c \fixed c' { d e, } }
key-list :: { \key c \major \key fis \minor \key d #(list (cons 0 1)) }
tweak-duration :: { c4 \tag #3 8 d \tweak color #red 4 { \tag #'a 8 d } }
grob-list :: { \override Staff.VerticalAxisGroup.staff-staff-spacing.basic-distance = #10 }
hash-types :: { #'sym #"str" #1.5 ##t #'(1 2) #(foo) #{ c #} }
fraction-arg :: { \magnifyMusic 0.5 { c } \scaleDurations 2/3 { c } \scaleDurations #'(2 . 3) { d } }
'''.strip("\n").replace("\n ", "\x00 ").split("\n")]
SNIPPETS = [(n, t.replace("\x00", "\n")) for n, t in SNIPPETS]


def case_snippet(rng, mon):
    r"""Every snippet on its own, or between generated music."""
    name, text = SNIPPETS[mon.index % len(SNIPPETS)]
    if mon.index >= len(SNIPPETS):
        g = LyGen(rng)
        before = g.render(g.musiclist(1)) + "\n" if rng.random() < .5 else ""
        after = "\n" + g.render(g.musiclist(1)) if rng.random() < .5 else ""
        text = before + text + after
    d, w = roundtrip(mon, text, "snippet-" + name)
    mon.ev("snippet")
    mon.nontrivial(name, sig(d))
    mon.sample(text)


def no_comments(tree):
    for n in list(tree // base.Comment):
        n.parent.remove(n)
    return tree


def case_comment(rng, mon):
    r"""A comment between two tokens does not change what is read."""
    plain = None
    for text, where, chosen in comment_texts(rng):
        d = quiet(read.lily_document, text)
        if not where:
            plain = d
            continue
        before = [t.lstrip("%{").rstrip("%}\n") for k, t in lytext.skeleton(text) if k in ("line", "block")]
        after = [n.head for n in d // base.Comment]
        mon.check(before == after, "comment-lost", "comments after %s are %r instead of %r" % (where, after, before), text=text)
        diff = tree_diff(plain, no_comments(d))
        mon.check(diff is None, "comment-changes-meaning", "comment after %s changes the tree: %s" % (where, diff), text=text)
        mon.ev("comment inserted", len(chosen))
        for w in where:
            mon.ev("comment after " + ("command" if w[0] == "\\" else "word" if w[0].isalpha() else "number" if w[0].isdigit() else "sign"))
        mon.nontrivial(sig(d), tuple(sorted(chosen)))
        mon.sample(text)


STREAMS = {
    "comment": Stream(case_comment, 1200, 40000),
    "snippet": Stream(case_snippet, 4 * len(SNIPPETS), 40 * len(SNIPPETS)),
    "document": Stream(case_document, 2400, 60000),
}
