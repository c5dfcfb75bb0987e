"""C10: pitch names in all languages."""
from fractions import Fraction

from vt.core import Stream
from parce.lang.lilypond_words import pitch_names
from quickly.pitch import Pitch, PitchProcessor, determine_language, octave_from_string, octave_to_string
from quickly.dom import lily, read

PROPERTY = "C10"
RULE = ("For every language in the pitch name table: random pitches and octaves are written and read back under random "
        "preference settings and compared with the table; names written in a random consistent style are distilled by "
        "another processor, which must then reproduce that style; name sets are matched against all languages by "
        "brute force; the languages along a document are predicted from its text. Non-trivial: a note with an alteration or more than one name; distinct by (language, name).")
NEED = ("to_string", "nodes", "process", "distill", "distill order", "determine", "unknown", "distill nothing", "language found")
ASSUMPTIONS = ["parce's pitch name table is the definition of the languages"]

LANGS = sorted(pitch_names)
PREFS = ("prefer_long", "prefer_accented", "prefer_x", "prefer_double_s", "prefer_classic", "prefer_deprecated")


def rand_name(rng, lang):
    return rng.choice(sorted(pitch_names[lang]))


def case_names(rng, mon):
    lang = rng.choice(LANGS)
    table = pitch_names[lang]
    p = PitchProcessor(lang) if rng.random() < .5 else PitchProcessor()
    p.language = lang
    mon.check(p.language == lang, "language", "language not set")
    for a in PREFS:
        if rng.random() < .6:
            setattr(p, a, rng.random() < .5)
    for _ in range(12):
        name = rand_name(rng, lang)
        octave, note, alter = table[name]
        pitch = p.pitch(name)
        mon.check((pitch.octave, pitch.note, pitch.alter) == (octave, note, alter), "read", "pitch(%r) is %r" % (name, pitch))
        pitch.octave += rng.randint(-5, 5)
        want = (pitch.octave, note, alter)
        # write and read back
        n, o = p.name_octave(pitch)
        mon.check(n in table, "name", "%r is no name in %s" % (n, lang))
        t = table[n]
        mon.check((t[0] + o,) + tuple(t[1:]) == want, "name_octave", "%s: %r is written as %r, %r" % (lang, want, n, o))
        s = p.to_string(pitch)
        mon.check(s == n + ("'" * o if o > 0 else "," * -o), "to_string", "wrong octave notation %r" % s)
        mon.ev("to_string")
        mon.check((pitch.octave, pitch.note, pitch.alter) == want, "modified", "writing modifies the pitch")
        # nodes
        cls = rng.choice((lily.Note, lily.Q, lily.PitchedRest)) if rng.random() < .3 else lily.Note
        if cls is lily.Q:
            cls = lily.Pitch
        node = p.pitchable(pitch, cls) if cls is not lily.Note or rng.random() < .5 else p.pitchable(pitch)
        mon.check(type(node) is cls, "pitchable", "wrong class")
        mon.check(node.octave == o and node.head == n, "pitchable", "pitchable() is %r %r, should be %r %r" % (node.head, node.octave, n, o))
        back = p.read_node(node)
        mon.check((back.octave, back.note, back.alter) == want, "read_node", "%s: node read back as %r, should be %r" % (lang, back, want))
        mon.check(node.write() == s, "node-write", "node is written as %r, should be %r" % (node.write(), s))
        mon.ev("nodes")
        # change through the context manager
        name2 = rand_name(rng, lang)
        t2 = table[name2]
        new = (t2[0] + rng.randint(-4, 4), t2[1], t2[2])
        head, oct_ = node.head, node.octave
        write = rng.random() < .8
        with p.process(node, write) as q:
            mon.check((q.octave, q.note, q.alter) == want, "process", "process() yields %r, should be %r" % (q, want))
            q.octave, q.note, q.alter = new
        if write:
            r = p.read_node(node)
            mon.check((r.octave, r.note, r.alter) == new, "process-write", "%s: %r was written back as %r" % (lang, new, r))
            if new[1:] == want[1:]:
                mon.check(node.head == head, "keep-name", "name changed from %r to %r without need" % (head, node.head))
        else:
            mon.check((node.head, node.octave) == (head, oct_), "process-nowrite", "node was changed without write")
        mon.ev("process")
        if alter or sum(1 for v in table.values() if v[1:] == (note, alter)) > 1:
            mon.nontrivial(lang, name)
    # unknown names
    bad = rng.choice(("xyz", "", "c'", "cisisisis", "H!"))
    if bad not in table:
        try:
            p.pitch(bad)
        except KeyError:
            mon.ev("unknown")
        else:
            mon.fail("unknown", "unknown name %r accepted" % bad)
    for f in (lambda: p.name_octave(Pitch(0, 0, Fraction(1, 7))), lambda: p.to_string(Pitch(0, 3, 3.75)), lambda: setattr(p, "language", "klingon")):
        try:
            f()
        except KeyError:
            mon.ev("unknown")
        else:
            mon.fail("unknown", "KeyError not raised")
    mon.check(p.language == lang, "language", "language changed by an error")
    mon.check("?" in format(Pitch(0, 3, 3.75)) and format(Pitch(-1, 0, 0.5)) == "cis", "format", "format of a pitch wrong")
    del p.language
    mon.check(p.language == "nederlands", "language-reset", "language not reset")
    mon.sample(dict(language=lang, name=name, written=s))
    n = rng.randint(-60, 60)
    s = octave_to_string(n)
    mon.check(octave_from_string(s) == n and len(s) == abs(n) and set(s) <= set(",'"), "octave-string", "%r for %d" % (s, n))


STYLES = {
    "nederlands": ("prefer_classic",),
    "norsk": ("prefer_classic", "prefer_double_s"),
    "english": ("prefer_long", "prefer_x"),
    "français": ("prefer_accented", "prefer_x"),
    "deutsch": ("prefer_deprecated",),
    "suomi": ("prefer_deprecated",),
    "espanol": ("prefer_x",),
    "español": ("prefer_x",),
}


def family(lang, name):
    """Names that are alternative writings in this language, None if there is only one."""
    v = pitch_names[lang][name]
    return [n for n, w in pitch_names[lang].items() if w == v]


def has_feature(lang, pref, name):
    """Does the name show the preferred style? (None: says nothing.)

    Written from the documentation of the preference attributes.
    """
    fam = family(lang, name)
    if pref == "prefer_classic":
        f = lambda n: n[:2] in ("es", "as")
    elif pref == "prefer_double_s":
        f = lambda n: "ss" in n
    elif pref == "prefer_long":
        f = lambda n: "-" in n
    elif pref == "prefer_x":
        f = lambda n: n.endswith("x")
    elif pref == "prefer_accented":
        f = lambda n: "é" in n
    elif pref == "prefer_deprecated":
        dep = {"deutsch": {"eeh", "ases", "aseh", "aeh"}, "suomi": {"ases", "bb", "heses"},
               "catalan": {n for n in pitch_names["catalan"] if n.endswith("s")}}
        dep["català"] = dep["catalan"]
        f = lambda n: n in dep[lang]
    if len({f(n) for n in fam}) < 2:
        return None
    return f(name)


def case_style(rng, mon):
    """Preferences decide the style; and the style can be distilled from names."""
    lang = rng.choice(sorted(STYLES) + ["catalan", "català"])
    prefs = STYLES.get(lang, ("prefer_deprecated",))
    p = PitchProcessor(lang)
    want = {a: rng.random() < .5 for a in prefs}
    if lang == "english" and want.get("prefer_long"):
        want["prefer_x"] = False        # long names have no x
    for a, v in want.items():
        setattr(p, a, v)
    names = []
    natural = rng.random() < .15
    for _ in range(rng.randint(1, 14)):
        pitch = p.pitch(rand_name(rng, lang))
        if natural:
            pitch.alter = 0
        name = p.name_octave(pitch)[0]
        for a, v in want.items():
            f = has_feature(lang, a, name)
            if f is None or a == "prefer_x" and want.get("prefer_long"):
                continue
            mon.check(f == v, "style", "%s with %s is written as %r" % (lang, want, name))
            mon.ev("style")
        names.append((pitch, name))
    if lang not in STYLES:
        return
    q = PitchProcessor(lang if rng.random() < .7 else None)
    for a in prefs:
        setattr(q, a, rng.random() < .5)
    before = {a: getattr(q, a) for a in PREFS}
    seq = [n for _, n in names]
    if q.language != lang:
        seq.insert(0, lang)
    l0 = q.language
    q.distill_preferences(seq if rng.random() < .5 else iter(seq))
    mon.check(q.language == l0, "distill-language", "distill_preferences() changed the language")
    q.language = lang
    for pitch, name in names:
        if lang == "english" and not pitch.alter:
            continue    # d and d-natural do not tell about the style
        got = q.name_octave(pitch)[0]
        mon.check(got == name, "distill", "%s: %r is written as %r after distilling the style from %r" % (lang, name, got, seq),
            want=want, before=before)
        mon.ev("distill")
    # names in all styles, in any order: the same preferences
    mixed = [rand_name(rng, lang) for _ in range(rng.randint(2, 6))]
    found = set()
    for _ in range(3):
        rng.shuffle(mixed)
        r = PitchProcessor(lang)
        for a in prefs:
            setattr(r, a, before[a])
        r.distill_preferences(rng.choice((list, set, iter))(mixed))
        found.add(tuple(getattr(r, a) for a in PREFS))
    mon.check(len(found) == 1, "distill-order", "the style distilled depends on the order of the names", language=lang, names=mixed, found=sorted(found))
    mon.ev("distill order")
    # names that say nothing about a preference do not change it
    for a in PREFS:
        if a not in prefs or all(has_feature(lang, a, n) is None and not x.alter for x, n in names):
            mon.check(getattr(q, a) == before[a], "distill-unrelated", "%s was changed by names that do not tell" % a, language=lang, names=seq)
            if a in prefs:
                mon.ev("distill nothing")
    mon.nontrivial(lang, tuple(sorted(want.items())), tuple(seq))


def case_document(rng, mon):
    """The language that is valid at a place in a document."""
    first = lang = rng.choice(LANGS)
    out, want, opened = [], [], 0
    for i in range(rng.randint(1, 25)):
        x = rng.random()
        if x < .15:
            lang = rng.choice(LANGS)
            out.append('\\language "%s"' % lang)
        elif x < .22:
            lang = rng.choice([l for l in LANGS if l.isascii()])
            out.append('\\include "%s.ly"' % lang)
        elif x < .35:
            out.append(rng.choice(('\\include "definitions.ily"', '\\include "%s.ily"' % lang, '\\include "my-%s.ly"' % rng.choice(LANGS),
                '\\language "unknown"', '\\version "2.24.0"')))
        elif x < .5:
            out.append(rng.choice(("{", "<<", "\\relative {", "\\new Staff {")))
            opened += 1
            out.append("\0")
        elif x < .6 and opened:
            opened -= 1
            out.append("\1")
        else:
            name = rand_name(rng, lang)
            out.append(("%s4" if opened else "{ %s4 }") % name)
            want.append((name, lang))
    # close what was opened
    closers, text = [], []
    for t in out:
        if t == "\0":
            closers.append(">>" if text[-1] == "<<" else "}")
        elif t == "\1":
            text.append(closers.pop())
        else:
            text.append(t)
    text = " ".join(text + closers[::-1])
    d = read.lily_document(text)
    notes = list(d // lily.Note)
    mon.check([n.head for n in notes] == [n for n, _ in want], "reading", "other notes are read", text=text)
    p = PitchProcessor(first)
    got = [(n.head, p.language) for n in p.follow_language(d.descendants()) if isinstance(n, lily.Note)]
    mon.check(got == want, "follow", "follow_language() has other languages", text=text, got=got, want=want)
    mon.check(p.language == lang, "follow", "another language at the end", text=text, got=p.language, want=lang)
    named = [n for n in d // (lily.Language, lily.Include) if n.language in pitch_names]
    p = PitchProcessor(first)
    seen = list(p.follow_language(d.descendants()))
    mon.check([n for n in d.descendants() if not any(n is m for m in named)] == seen, "follow-nodes", "follow_language() yields other nodes", text=text)
    for n, (name, l) in zip(notes, want):
        p = PitchProcessor(first)
        p.find_language(n)
        mon.check(p.language == l, "find", "find_language() has %s instead of %s for %s" % (p.language, l, name), text=text)
        mon.ev("language found")
    if len(set(l for _, l in want)) > 1:
        mon.nontrivial(text)


def case_determine(rng, mon):
    lang = rng.choice(LANGS)
    names = [rand_name(rng, lang) for _ in range(rng.randint(0, 6))]
    if rng.random() < .3:
        names.append(rng.choice("rRsq"))
    if rng.random() < .2:
        names.append(rand_name(rng, rng.choice(LANGS)))
    rng.shuffle(names)
    got = list(determine_language(names if rng.random() < .5 else iter(names)))
    real = {n for n in names if n not in ("r", "R", "s", "q")}
    want = [l for l in LANGS if all(n in pitch_names[l] for n in real)]
    # synonyms share their table: each table must be there exactly once or more by one of its names
    tables = {id(pitch_names[l]) for l in want}
    mon.check(all(l in want for l in got), "determine-wrong", "%r suggested for %r" % (got, names))
    mon.check({id(pitch_names[l]) for l in got} == tables, "determine-missing", "languages %r for %r, should be among %r" % (got, names, want))
    mon.check(len(set(got)) == len(got), "determine-double", "language mentioned twice")
    common = [l for l in got if l in ("nederlands", "english", "deutsch", "français", "italiano")]
    mon.check(got[:len(common)] == common, "determine-order", "often used languages are not first: %r" % got)
    mon.ev("determine")
    mon.nontrivial(tuple(sorted(real)))


STREAMS = {
    "names": Stream(case_names, 800, 40000),
    "style": Stream(case_style, 1600, 80000),
    "determine": Stream(case_determine, 800, 40000),
    "document": Stream(case_document, 800, 20000),
}
