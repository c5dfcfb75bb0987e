r"""C20: properties of elements that can be set, read and unset."""
import contextlib
import io
import re
from fractions import Fraction

import parce
from parce.transform import Transformer

from vt.core import Stream
from vt.util import sig, tree_diff
from quickly.dom import read, lily, base, element, scm
from quickly.lang import lilypond

PROPERTY = "C20"
RULE = ("Histories of setting, changing and unsetting properties, on elements that are built, read, or in a document; a small "
        "model of the property values predicts what reading gives and the exact text. Streams: durations, scalings, "
        "octaves, accidentals and octave checks of all kinds of notes; variables in blocks and documents; "
        "names, versions, languages, file names and lists; elements with a value from a fixed set. "
        "Non-trivial: a history with a change that matters; distinct by the history.")
ASSUMPTIONS = ["a name is not assigned to again within one block in the initial texts of the variables stream, except in the stream's "
               "duplicates case"]
NEED = ("durable", "durable in document", "set duration", "set scaling", "set duration_scaling", "set octave", "set accidental",
        "set oct_check", "unset", "scaling without duration", "restored", "variables", "variables in document", "reread variables",
        "unset variable", "names", "references", "version", "language", "filename", "value notations", "fixed values", "numbers")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


class Doc:
    def __init__(self, text):
        self.text = text
        self.doc = parce.Document(lilypond.LilyPond.root, text)
        self.tree = quiet(Transformer().transform_tree, self.doc.get_root(True))

    def edited(self):
        self.tree.edit(self.doc)
        return self.doc.text()


# ---- durations, octaves etc

DURS = {Fraction(8): r"\maxima", Fraction(4): r"\longa", Fraction(2): r"\breve", Fraction(1): "1", Fraction(1, 2): "2",
        Fraction(1, 4): "4", Fraction(1, 8): "8", Fraction(1, 16): "16", Fraction(1, 32): "32", Fraction(1, 64): "64",
        Fraction(1, 128): "128"}
DOTTED = {}
for _d, _s in DURS.items():
    for _n in range(4):
        DOTTED[_d * (2 - Fraction(1, 2 ** _n))] = _s + "." * _n

ALL_DURATIONS = sorted(DOTTED)
SCALINGS = [Fraction(n, d) for n in (1, 2, 3, 4, 5, 7) for d in (1, 2, 3, 5, 7, 11)]


def lazy(rng, value):
    """The value in one of the forms that may be used to specify it."""
    forms = [value, value]
    if value.denominator == 1:
        forms.append(int(value))
    if Fraction(float(value)).limit_denominator() == value:
        forms.append(float(value))
    return rng.choice(forms)


def octave_text(n):
    return "'" * n if n > 0 else "," * -n


#: kind: (pitched?, durable?, prefix, suffix, class, wrap begin, wrap end)
KINDS = {
    "note": (True, True, "c cis bes es d".split(), "", lily.Note, "{ ", " }"),
    "pitchedrest": (True, True, "c cis bes".split(), r"\rest", lily.PitchedRest, "{ ", " }"),
    "pitch": (True, False, "c cis bes".split(), "", lily.Pitch, r"\transposition ", " { e4 }"),
    "rest": (False, True, ["r"], "", lily.Rest, "{ ", " }"),
    "mmrest": (False, True, ["R"], "", lily.MultiMeasureRest, "{ ", " }"),
    "space": (False, True, ["s"], "", lily.Space, "{ ", " }"),
    "q": (False, True, ["q"], "", lily.Q, "{ <c e> ", " }"),
    "chord": (False, True, ["<c e>", "<cis e'4-.>", "<>"], "", lily.Chord, "{ ", " }"),
    "drum": (False, True, ["bd", "sn"], "", lily.Drum, r"\drummode { ", " }"),
    "lyric": (False, True, ["hello", "a"], "", lily.LyricText, r"\lyricmode { ", " }"),
    "lyricskip": (False, True, ["_"], "", lily.LyricSkip, r"\lyricmode { a4 ", " }"),
    "lyricitem": (False, True, ['"two words"', r'\markup { x }'], "", lily.LyricItem, r"\lyricmode { ", " }"),
    "figure": (False, True, ["<5 3>", "<6+>"], "", lily.Figure, r"\figuremode { ", " }"),
}
TAILS = ["", "", "-.", "->-3", "(", "\\p", "-\\markup x", "[-!"]
PROPS = ("duration", "scaling", "duration_scaling", "octave", "accidental", "oct_check")


class Model:
    def __init__(self, kind, name, tail, suffix):
        self.kind, self.name, self.tail, self.suffix = kind, name, tail, suffix
        self.pitched, self.durable = KINDS[kind][:2]
        self.duration = self.scaling = self.accidental = self.oct_check = None
        self.octave = 0

    def text(self):
        r = self.name + octave_text(self.octave) if self.pitched else self.name
        if self.accidental:
            r += {"cautionary": "?", "forced": "!"}[self.accidental]
        if self.oct_check is not None:
            r += "=" + octave_text(self.oct_check)
        if self.duration is not None:
            r += self.duration_text()
        return r + self.suffix + self.tail

    def duration_text(self):
        r = DOTTED[self.duration]
        if self.scaling != 1:
            r += "*%s" % self.scaling
        return r

    def values(self):
        v = {}
        if self.durable:
            v["duration"] = self.duration
            v["scaling"] = self.scaling if self.duration is not None else None
            v["duration_scaling"] = (self.duration, self.scaling) if self.duration is not None else None
        if self.pitched:
            v.update(octave=self.octave, accidental=self.accidental, oct_check=self.oct_check)
        return v


def random_op(rng, m):
    """(property name, value, action) and update the model; action: set, del."""
    props = (PROPS[:3] if m.durable else ()) + (PROPS[3:] if m.pitched else ())
    p = rng.choice(props)
    unset = rng.random() < .3
    action = rng.choice(("del", "none")) if unset else "set"
    value = None
    if p == "duration":
        if unset:
            m.duration = m.scaling = None
        else:
            value = rng.choice(ALL_DURATIONS)
            if m.duration is None:
                m.scaling = Fraction(1)
            m.duration = value
            value = lazy(rng, value)
    elif p == "scaling":
        if unset:
            if m.duration is not None:
                m.scaling = Fraction(1)
        else:
            value = rng.choice(SCALINGS)
            if m.duration is None:
                return p, lazy(rng, value), "error" if value != 1 else "set"
            m.scaling = value
            value = lazy(rng, value)
    elif p == "duration_scaling":
        if unset:
            m.duration = m.scaling = None
        else:
            m.duration, m.scaling = rng.choice(ALL_DURATIONS), rng.choice(SCALINGS)
            value = lazy(rng, m.duration), lazy(rng, m.scaling)
    elif p == "octave":
        if unset:
            action = rng.choice(("del", "set"))
            value = m.octave = 0
        else:
            value = m.octave = rng.randint(-3, 4)
    elif p == "accidental":
        m.accidental = value = None if unset else rng.choice(("cautionary", "forced"))
    elif p == "oct_check":
        m.oct_check = value = None if unset else rng.randint(-3, 3)
    return p, value, action


def apply_op(mon, node, p, value, action, **ctx):
    if action == "del":
        delattr(node, p)
    elif action == "error":
        try:
            setattr(node, p, value)
        except ValueError:
            mon.ev("scaling without duration")
        else:
            mon.fail("scaling-without-duration", "setting the scaling without duration gave no ValueError", **ctx)
        return
    else:
        setattr(node, p, value)
    mon.ev("unset" if value is None or action == "del" else "set " + p)


def check_values(mon, node, m, **ctx):
    for p, v in m.values().items():
        got = getattr(node, p)
        mon.check(got == v and type(got) is not bool, "value", "%s is %r, should be %r" % (p, got, v), prop=p, **ctx)
        if p in ("duration", "scaling") and got is not None:
            mon.check(isinstance(got, (Fraction, int)), "value-type", "%s is %r" % (p, got), **ctx)


def case_durable(rng, mon):
    kind = rng.choice(("note",) * 5 + ("pitchedrest",) * 2 + tuple(KINDS))
    pitched, durable, names, suffix, cls, begin, end = KINDS[kind]
    tail = rng.choice(TAILS) if kind not in ("pitch", "lyric", "lyricskip", "lyricitem") else ""
    m = Model(kind, rng.choice(names), tail, suffix)
    # initial state
    for _ in range(rng.choice((0, 1, 2, 4))):
        random_op(rng, m)
    first = m.text()
    before, after = begin, end
    if rng.random() < .4 and kind != "pitch":
        before += rng.choice(("a4 ", "r2 ", "a4 b ")) if "{ " == begin else ""
        after = rng.choice((" a4", " b", " %{ y %} b", "\n  d")) + end if begin == "{ " else end
        after = rng.choice((" ", "  ", "\n ")) + after.lstrip() if after[0] == " " else after
    text = before + first + after
    how = rng.choice(("doc", "doc", "read", "copy", "origin"))
    ctx = dict(text=text, kind=kind, how=how)
    if how == "doc":
        d = Doc(text)
        tree = d.tree
    else:
        tree = quiet(read.lily_document, text, how == "origin")
    node = locate(tree, cls, before, mon, ctx)
    if how == "copy":
        node = node.copy()
    check_values(mon, node, m, state="initial", **ctx)
    initial = node.copy()
    history = []
    for _ in range(rng.randint(1, 6)):
        p, value, action = random_op(rng, m)
        history.append((p, str(value), action))
        apply_op(mon, node, p, value, action, history=history, **ctx)
        check_values(mon, node, m, history=history, **ctx)
        out = node.write()
        mon.check(nospace(out) == nospace(m.text()), "text", "written as %r, should be %r" % (out, m.text()), history=history, **ctx)
        if kind != "lyricitem":
            mon.check(out == m.text(), "text", "written as %r, should be %r" % (out, m.text()), history=history, **ctx)
        if m.duration is not None:
            dn = next(iter(node / lily.Duration))
            mon.check(dn.write() == m.duration_text(), "duration-text", "duration written as %r" % dn.write(), history=history, **ctx)
    mon.ev("durable")
    mon.nontrivial(first, tuple(history))
    mon.sample(dict(text=text, history=history, result=m.text()))
    if how == "doc":
        new = d.edited()
        want = before + m.text() + after
        mon.check(nospace(new) == nospace(want), "edited-text", "edited text %r, should be %r" % (new, want), history=history, **ctx)
        if kind != "lyricitem":
            mon.check(new.startswith(before) and new.endswith(after), "edited-around", "text around it changed: %r" % new, history=history, **ctx)
            mon.check(new == want, "edited-text", "edited text %r, should be %r" % (new, want), history=history, **ctx)
        mon.ev("durable in document")
    # reading what was written gives the same values
    if how != "copy":
        t2 = quiet(read.lily_document, before + m.text() + after)
        n2 = locate(t2, cls, before, mon, ctx)
        check_values(mon, n2, m, history=history, state="read again", **ctx)
        diff = tree_diff(n2, node.copy())
        mon.check(diff is None, "not-the-same", "the modified element is not the same as when its text is read: %s" % diff,
                  history=history, **ctx)
    # unset everything
    for p in (("duration",) if m.durable else ()) + (PROPS[3:] if m.pitched else ()):
        delattr(node, p) if rng.random() < .5 else setattr(node, p, 0 if p == "octave" else None)
    m.duration = m.scaling = m.accidental = m.oct_check = None
    m.octave = 0
    check_values(mon, node, m, state="all unset", history=history, **ctx)
    bare = quiet(read.lily_document, begin + m.text() + end)
    n3 = locate(bare, cls, begin, mon, ctx)
    diff = tree_diff(n3, node.copy())
    mon.check(diff is None, "not-restored", "after unsetting everything the element is not the same as without the properties: %s" % diff,
              history=history, **ctx)
    mon.ev("restored")


def locate(tree, cls, before, mon, ctx):
    """The element under test: the first of its class after the text before."""
    l = [n for n in tree.descendants() if type(n) is cls]
    # count those in the text before it
    k = len([n for n in quiet(read.lily_document, before).descendants() if type(n) is cls])
    mon.check(len(l) > k, "harness", "element not found", **ctx)
    return l[k]


def nospace(s):
    return "".join(s.split())


# ---- variables

BLOCKS = {
    lily.Header: (r"\header", "title composer subtitle meter tagline copyright dedication".split()),
    lily.Paper: (r"\paper", "paper-height top-margin ragged-bottom system-count two-sided page-breaking-system-system-spacing indent "
                 "line-width print-page-number ragged-last-bottom".split()),
    lily.Layout: (r"\layout", "line-width ragged-right ragged-last indent short-indent system-count".split()),
    lily.Midi: (r"\midi", []),
    lily.Document: (None, []),
    lily.With: (r"\with", []),
}
OTHER = ["foo", "barNote", "foo-bar", "two words", "c", "cis", "r2d2", "x", "a.b", "music", "é", "", "d'\"q", "1abc"]
TUPLES = [("a", "b"), ("music", 1), ("foo", "two words"), ("music", 1, 2), ("foo", "bar", "c"), ("two words", 3, "b"), ("foo", 1, "b")]
WORDS = ["", "a", "Hello World", 'quo"ted', "back\\slash", "1/2", "é☃", "% no comment", "{", "new\nline", "tab\t", "'x'", "#f"]


def random_value(rng, simple=False):
    while True:
        v = random_value_(rng, simple)
        n = v[0] if isinstance(v, tuple) else v
        if not isinstance(n, (int, float)) or n >= 0 or not simple and rng.random() < .1:
            return v


def random_value_(rng, simple):
    k = rng.randrange(9)
    if k == 0: return rng.choice((0, 1, 5, 12, 100, -1, -20))
    if k == 1: return rng.choice((0.5, 2.25, 10.0, 3.14, -1.5, -0.25))
    if k == 2: return rng.choice((True, False))
    if k == 3: return (rng.choice((0, 5, 10, 210, -3)), rng.choice(("mm", "cm", "in", "pt")))
    if k == 4: return (rng.choice((0.5, 2.5, 29.7, -1.25)), rng.choice(("mm", "cm", "in", "pt")))
    if k == 5 and not simple:
        return rng.choice((
            lily.MusicList(lily.Note("c"), lily.Note("d")), lily.Markup("markup", lily.MarkupWord("x")),
            lily.Scheme("#", scm.Quote("'", scm.List(scm.Number(1), scm.Number(2)))), lily.IdentifierRef("foo"))).copy()
    return rng.choice(WORDS)


def value_text(v):
    """The text of the value, independent of the library (not for elements)."""
    if isinstance(v, element.Element):
        return v.write()
    if isinstance(v, bool):
        return "##t" if v else "##f"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, tuple):
        return "%s\\%s" % v
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')


def name_text_ok(name):
    return isinstance(name, str)


def same_value(got, want):
    if isinstance(want, element.Element):
        return isinstance(got, element.Element) and tree_diff(got, want) is None
    return type(got) is type(want) and got == want


def assigned_text(name):
    """Text of a variable name; None if not predicted here."""
    if isinstance(name, str) and re.fullmatch(r"[a-zA-Z]+(-[a-zA-Z]+)*", name) and name not in ("c", "cis"):
        return name
    return None


def case_vars(rng, mon):
    cls = rng.choice(tuple(BLOCKS))
    keyword, known = BLOCKS[cls]
    pool = [n for n in known] * 2 + OTHER + TUPLES
    rng.shuffle(pool)
    if cls in (lily.Header, lily.Paper):    # parce has no such lists there
        pool = [n for n in pool if isinstance(n, str) or n[0] not in ("two words", "a")]
    pool = list(dict.fromkeys(pool))[:rng.randint(2, 6)]
    model = {}
    lines = []
    how = rng.choice(("doc", "doc", "read", "build"))
    if how != "build":
        for name in pool:
            if rng.random() < .5:
                text = assigned_text(name)
                if text:
                    v = random_value(rng, True)
                    model[name] = v
                    seps = [" ", " ", "  ", "\n     "]
                    if isinstance(v, (str, bool)):      # parce can't handle comments before a number here
                        seps += [" %{ c %} ", " % comment\n   "]
                    lines.append("  %s =%s%s" % (text, rng.choice(seps), value_text(v)))
            if rng.random() < .25:
                lines.append(rng.choice(("  % a comment", "  %{ other %}", "", "  %{ x\n y %}", "  #(display 1)")))
        if keyword:
            text = "\\version \"2.24.0\"\n%s {\n%s\n}\n" % (keyword, "\n".join(lines)) + "% end\n"
            if cls is lily.With:
                text = "\\new Staff " + text.split("\n", 1)[1].replace("}\n% end", "} { c }\n% end")
        else:
            text = "\n".join(["% start"] + [l.lstrip(" ") for l in lines] + ["{ c }"]) + "\n"
        if how == "doc":
            d = Doc(text)
            tree = d.tree
        else:
            tree = quiet(read.lily_document, text, rng.random() < .5)
        node = tree if cls is lily.Document else next(iter(tree.instances_of(cls)), None)
        mon.check(node is not None, "harness", "no block", text=text)
    else:
        text = None
        kw = {}
        for name in pool:
            if name in known and rng.random() < .5:
                v = random_value(rng, True)
                model[name] = v
                kw[name.replace("-", "_")] = v
        node = tree = cls(**kw)
    ctx = dict(text=text, cls=cls.__name__, how=how)
    check_vars(mon, node, model, state="initial", pool=pool, **ctx)
    history = []
    removed, changed = set(), set()
    for _ in range(rng.randint(1, 7)):
        name = rng.choice(pool)
        attr = name.replace("-", "_") if name in known else None
        if rng.random() < .25:
            if attr and rng.random() < .6:
                if rng.random() < .5:
                    setattr(node, attr, None)
                else:
                    delattr(node, attr)
            else:
                node.unset_variable(name)
            if name in model:
                mon.ev("unset variable")
            model.pop(name, None)
            history.append(("unset", name))
        else:
            v = random_value(rng)
            if cls in (lily.Header, lily.Paper) and isinstance(v, lily.MusicList):
                v = lily.IdentifierRef("music")     # parce doesn't expect music there
            if not isinstance(v, (str, bool)) and text and re.search(r"%s = *%%" % re.escape(str(name)), text):
                v = "a string"
            if attr and rng.random() < .6:
                setattr(node, attr, v)
            else:
                node.set_variable(name, v)
            model[name] = v
            history.append(("set", name, value_text(v)))
        changed.add(name)
        check_vars(mon, node, model, history=history, pool=pool, **ctx)
        mon.ev("variables")
    mon.nontrivial(cls.__name__, text, tuple(map(str, history)))
    mon.sample(dict(ctx, history=history))
    if cls is lily.With and how != "doc":
        return
    if any(isinstance(v, tuple) and v[0] < 0 or isinstance(v, (int, float)) and v < 0 for v in model.values()):
        return      # parce has no negative numbers here
    if how == "doc":
        new = d.edited()
        # lines that are untouched are still there, in order
        pos = 0
        keep = ["% end" if cls is not lily.Document else "{ c }"]
        for l in lines:
            l = l.lstrip(" ") if cls is lily.Document else l
            m = re.match(r"\s*([\w-]+) =", l)
            if m is None and l:
                keep.insert(-1, l)
            elif m and m.group(1) not in changed:
                keep.insert(-1, l)
        for l in keep:
            i = new.find(l, pos)
            mon.check(i >= 0, "edited-around", "line %r is not in the text after edit: %r" % (l, new), history=history, **ctx)
            pos = i + len(l)
        if cls is lily.Document:
            pass
        mon.ev("variables in document")
        out = new
    else:
        out = tree.write()
    # values are read again from the text
    t2 = quiet(read.lily_document, out)
    n2 = t2 if cls is lily.Document else next(iter(t2.instances_of(cls)), None)
    mon.check(n2 is not None, "reread", "no block after writing", out=out, history=history, **ctx)
    check_vars(mon, n2, model, history=history, state="read again", out=out, pool=pool, **ctx)
    mon.ev("reread variables")


def check_vars(mon, node, model, pool, **ctx):
    for name in pool:
        got = node.get_variable(name)
        if name in model:
            mon.check(same_value(got, model[name]), "variable", "%r is %r, should be %r" % (name, got, model[name]), **ctx)
        else:
            mon.check(got is None, "variable", "%r is %r, should not be there" % (name, got), **ctx)
        if isinstance(name, str) and name.replace("-", "_") in dir(type(node)) and name in BLOCKS[type(node)][1]:
            got = getattr(node, name.replace("-", "_"))
            mon.check(same_value(got, model[name]) if name in model else got is None, "attribute", "attribute %s is %r, should be %r" % (
                name, got, model.get(name)), **ctx)
    v = node.variables()
    mon.check(sorted(map(repr, v)) == sorted(map(repr, model)), "variables", "variables() %r, should be %r" % (v, list(model)), **ctx)


# ---- names, lists, versions etc

NAMES = ["foo", "fooBar", "two words", "c", "cis", "x-y", "é", "a1", "", "with\"quote", "_", "-", "12", "a.b", "foo_bar", "bes", "r", "s",
         "R", "q", "music", "title"]


FORMS = [("1/2", Fraction(1, 2)), ("3/4", Fraction(3, 4)), ("12", 12), ("0", 0), ("2.5", 2.5), ("10\\mm", (10, "mm")), ("2.5\\cm", (2.5, "cm")), ('"text"', "text"),
         ("name", "name"), ("##t", True), ("##f", False), ("#12", 12), ("#-3", -3), ("#0.5", .5), ("#1/2", Fraction(1, 2)), 
         ("##x1F", 31), ("##b101", 5), ('#"a string"', "a string"), ("#'(1 2)", None), ("#'foo", None), ("#(+ 1 2)", None)]


def random_name(rng):
    if rng.random() < .5:
        return rng.choice(NAMES)
    return (rng.choice(NAMES),) + tuple(rng.choice(NAMES + list(range(1, 9)) + [10, 123]) for _ in range(rng.randint(1, 3)))


def case_names(rng, mon):
    k = rng.randrange(7)
    name = random_name(rng)
    name2 = random_name(rng)
    if k == 0:
        a = lily.Assignment.with_name(name, lily.Int(5))
        mon.check(a.get_name() == name, "name", "name %r, should be %r" % (a.get_name(), name))
        a[0].set_name(name2)
        mon.check(a.get_name() == name2, "name", "name %r, should be %r" % (a.get_name(), name2))
        out = lily.Document(a).write()
        t = quiet(read.lily_document, out)
        mon.check(len(t) == 1 and isinstance(t[0], lily.Assignment) and t[0].get_name() == name2, "name-reread",
                  "name %r, should be %r" % (t[0].get_name() if len(t) and isinstance(t[0], lily.Assignment) else t[:], name2), out=out)
        mon.ev("names")
        mon.nontrivial("name", name2)
    elif k == 1:
        r = lily.IdentifierRef.with_name(name)
        mon.check(r.get_name() == name, "reference", "name %r, should be %r" % (r.get_name(), name))
        if rng.random() < .5:
            r = lily.IdentifierRef("foo")
        r.set_name(name2)
        mon.check(r.get_name() == name2, "reference", "name %r, should be %r" % (r.get_name(), name2))
        first = name2 if isinstance(name2, str) else name2[0]
        # a reference can be read again if it is no command
        if first in ("foo", "fooBar", "x-y", "a1", "two words", "music"):
            out = r"{ %s }" % r.write()
            t = quiet(read.lily_document, out)
            refs = list(t.instances_of(lily.IdentifierRef))
            mon.check(len(refs) == 1 and refs[0].get_name() == name2, "reference-reread",
                      "name %r, should be %r" % ([x.get_name() for x in refs], name2), out=out)
            mon.ev("references")
            mon.nontrivial("ref", name2)
    elif k == 2:
        # versions
        v = tuple(rng.randrange(rng.choice((100, 100, 3000))) for _ in range(rng.randint(1, 4)))
        v2 = tuple(rng.randrange(rng.choice((100, 100, 3000))) for _ in range(rng.randint(1, 4)))
        n = lily.Version(version=v)
        mon.check(n.version == v and n.write() == r'\version "%s"' % ".".join(map(str, v)), "version", "version %r" % n.write(), v=v)
        n.version = v2
        mon.check(n.version == v2, "version", "version %r" % (n.version,), v=v2)
        text = rng.choice(('', '\\version "%s"\n' % ".".join(map(str, v)), '% x\n\\version "' + ".".join(map(str, v)) + '" % y\n')) + "{ c d }\n"
        d = Doc(text)
        has = "version" in text
        mon.check(d.tree.version == (v if has else ()), "version", "version %r in %r" % (d.tree.version, text))
        d.tree.version = v2
        mon.check(d.tree.version == v2, "version", "version %r" % (d.tree.version,), v=v2)
        new = d.edited()
        if has:
            want = text.replace(".".join(map(str, v)), ".".join(map(str, v2)), 1)
            mon.check(new == want, "version-edit", "text %r, should be %r" % (new, want), text=text)
        else:
            mon.check(new.split() == ('\\version "%s" ' % ".".join(map(str, v2)) + text).split(), "version-edit", "text %r" % new, text=text)
        mon.check(quiet(read.lily_document, new).version == v2, "version", "version read again is wrong: %r" % new)
        mon.ev("version")
        mon.nontrivial("version", v, v2, text)
    elif k == 3:
        langs = "nederlands english deutsch norsk svenska suomi italiano catalan espanol portugues vlaams".split()
        l, l2 = rng.choice(langs), rng.choice(langs)
        if rng.random() < .5:
            text, want = '\\language "%s" %% x\n{ c }\n' % l, '\\language "%s" %% x\n{ c }\n' % l2
            cls = lily.Language
        else:
            text, want = '{ c }\n\\include  "%s.ly" { d }\n' % l, '{ c }\n\\include  "%s.ly" { d }\n' % l2
            cls = lily.Include
        d = Doc(text)
        n = next(iter(d.tree.instances_of(cls)))
        mon.check(n.language == l, "language", "language %r, should be %r" % (n.language, l))
        n.language = l2
        mon.check(n.language == l2, "language", "language %r, should be %r" % (n.language, l2))
        new = d.edited()
        mon.check(new == want, "language-edit", "text %r, should be %r" % (new, want))
        n = cls()
        mon.check(n.language is None, "language", "language %r" % n.language)
        n.language = l
        mon.check(n.language == l and n.write() == text[text.index("\\"):].split('"')[0].replace("  ", " ") + '"%s%s"' % (l, ".ly" if cls is lily.Include else ""),
                  "language", "written %r" % n.write())
        mon.ev("language")
        mon.nontrivial("language", cls.__name__, l, l2)
    elif k == 4:
        f, f2 = rng.choice(WORDS), rng.choice(WORDS)
        q = lambda s: '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
        text = "{ c }\n\\include %s %% x\n" % q(f)
        d = Doc(text)
        n = next(iter(d.tree.instances_of(lily.Include)))
        mon.check(n.filename == f, "filename", "filename %r, should be %r" % (n.filename, f), text=text)
        mon.check(n.language is None, "filename", "language %r of file %r" % (n.language, f))
        n.filename = f2
        mon.check(n.filename == f2, "filename", "filename %r, should be %r" % (n.filename, f2), text=text)
        new = d.edited()
        want = "{ c }\n\\include %s %% x\n" % q(f2) if f != f2 else text
        mon.check(new == want, "filename-edit", "text %r, should be %r" % (new, want), text=text)
        n2 = lily.Include(filename=f)
        mon.check(n2.filename == f and n2.write() == "\\include " + q(f), "filename", "written %r" % n2.write())
        mon.ev("filename")
        mon.nontrivial("filename", f, f2)
    elif k == 6:
        # all notations a simple value can have in the text
        vals = dict(rng.sample(FORMS, rng.randint(1, 4)))
        names = rng.sample(("foo", "fooBar", "xy", "music", "someThing"), len(vals))
        text = "\n".join("%s = %s" % (n, v) for n, v in zip(names, vals)) + "\n{ c }\n"
        d = quiet(read.lily_document, text, rng.random() < .5)
        for n, (v, want) in zip(names, vals.items()):
            got = d.get_variable(n)
            if want is None:
                mon.check(isinstance(got, lily.Scheme) and got.write() == v, "value-form", "the value of %s is %r" % (v, got), text=text)
            else:
                mon.check(type(got) is type(want) and got == want, "value-form", "the value of %s is %r, should be %r" % (v, got, want), text=text)
            mon.ev("value notations")
            mon.nontrivial("form", v)
    else:
        l = [rng.choice(NAMES + list(range(12))) for _ in range(rng.randint(0, 4))]
        n = lily.List()
        n.set_list(l)
        mon.check(n.get_list() == tuple(l), "list", "list %r, should be %r" % (n.get_list(), l))
        l2 = [rng.choice(NAMES + list(range(12))) for _ in range(rng.randint(0, 4))]
        n.set_list(l2)
        mon.check(n.get_list() == tuple(l2), "list", "list %r, should be %r" % (n.get_list(), l2))
        mon.ev("names")


# ---- elements with a fixed set of values

def fixed_values():
    """(class, {text: value}, contexts)"""
    up = lambda grob: grob[0].lower() + grob[1:]
    dirs = {}
    for g in "ArpeggioArrow BassFigureStaffAlignment Dots Dynamic PhrasingSlur Slur Stem TextSpanner Tie Tuplet".split():
        for name, v in (("Up", 1), ("Neutral", 0), ("Down", -1)):
            if g != "ArpeggioArrow" or v:
                dirs["\\%s%s" % (up(g), name)] = (g, v)
    styles = {"\\%s%s" % (up(g), s): (g, v) for g in ("Slur", "Tie", "PhrasingSlur") for s, v in (
        ("Solid", "solid"), ("Dashed", "dashed"), ("Dotted", "dotted"), ("HalfDashed", "half_dashed"), ("HalfSolid", "half_solid"))}
    toggles = {"\\%s%s" % (p, s): (p, v) for p in (
        "autoBeam balloonLength bassFigureExtenders cadenza deadNotes easyHeads improvisation harmonics kievan markLength "
        "mergeDifferentlyDotted mergeDifferentlyHeaded palmMute pointAndClick predefinedFretboards sostenuto sustain textLength xNotes").split()
        for s, v in (("On", True), ("Off", False))}
    music = ["{ c4 %s d }", "{ %s { c } }", "foo = { %s }"]
    post = ["{ c4%s d }", "{ <c e>%s }", "{ r%s c }"]
    return (
        (lily.GrobDirection, dirs, music), (lily.GrobStyle, styles, music), (lily.Toggle, toggles, music[:1]),
        (lily.VoiceN, {"\\voice" + n: i for i, n in enumerate("One Two Three Four Five Six".split(), 1)}, music),
        (lily.Break, {"\\break": True, "\\noBreak": False}, music[:1]),
        (lily.PageBreak, {"\\pageBreak": True, "\\noPageBreak": False}, music[:1]),
        (lily.PageTurn, {"\\pageTurn": "yes", "\\noPageTurn": "no", "\\allowPageTurn": "allow"}, music[:1]),
        (lily.Accidental, {"?": "cautionary", "!": "forced"}, ["{ c%s d }", "{ c'%s4 d }", "{ <c%s e> }", "{ c%s=' }"]),
        (lily.Direction, {"_": -1, "-": 0, "^": 1}, ["{ c4%s\\p d }", "{ c%s( d }", "{ c%s\"x\" }", "{ r%s> }"]),
        (lily.Beam, {"[": "start", "]": "stop"}, post), (lily.Slur, {"(": "start", ")": "stop"}, post),
        (lily.PhrasingSlur, {"\\(": "start", "\\)": "stop"}, post), (lily.Ligature, {"\\[": "start", "\\]": "stop"}, ["{ %s c d }"]),
        (lily.TextSpanner, {"\\startTextSpan": "start", "\\stopTextSpan": "stop"}, post),
        (lily.TrillSpanner, {"\\startTrillSpan": "start", "\\stopTrillSpan": "stop"}, post),
        (lily.Melisma, {"\\melisma": "start", "\\melismaEnd": "stop"}, ["{ c4 %s d }"]),
        (lily.Unit, {"\\mm": "mm", "\\cm": "cm", "\\in": "in", "\\pt": "pt"}, ["\\paper { x = 3%s y = 5 }", "\\paper { indent = 3.5%s }"]),
    )


FIXED = fixed_values()
ATTRS = {lily.GrobDirection: ("grob", "direction"), lily.GrobStyle: ("grob", "style"), lily.Toggle: ("prop", "value")}


def case_fixed(rng, mon):
    cls, values, contexts = rng.choice(FIXED)
    text, value = rng.choice(sorted(values.items(), key=str))
    text2, value2 = rng.choice(sorted(values.items(), key=str))
    ctx = dict(cls=cls.__name__, text=text, text2=text2)
    n = cls(value)
    mon.check(n.write() == text and n.head == value, "fixed", "%s(%r) is written as %r, should be %r" % (cls.__name__, value, n.write(), text), **ctx)
    n = cls.from_mapping(text2)
    mon.check(n.write() == text2 and n.head == value2, "fixed", "from_mapping(%r) is %r" % (text2, n.head), **ctx)
    before, after = rng.choice(contexts).split("%s")
    d = Doc(before + text + after)
    l = [x for x in d.tree.descendants() if type(x) is cls]
    mon.check(len(l) == 1 and l[0].head == value, "fixed-read", "reading %r gives %r" % (d.text, [(x, x.head) for x in l]), **ctx)
    n = l[0]
    attrs = ATTRS.get(cls)
    if attrs:
        mon.check(tuple(getattr(n, a) for a in attrs) == value, "fixed-attr", "%r has attributes %r" % (text, tuple(getattr(n, a) for a in attrs)), **ctx)
        a = list(zip(attrs, value2))
        if rng.random() < .5:
            a.reverse()
        for name, v in a:
            setattr(n, name, v)
        mon.check(tuple(getattr(n, a) for a in attrs) == value2, "fixed-attr", "attributes are %r" % (tuple(getattr(n, a) for a in attrs),), **ctx)
    else:
        n.head = value2
    out = type(n).copy(n, False).write()
    mon.check(out == text2 and n.head == value2, "fixed-set", "is written as %r, should be %r" % (out, text2), **ctx)
    new = d.edited()
    mon.check(new == before + text2 + after, "fixed-edit", "text %r, should be %r" % (new, before + text2 + after), **ctx)
    mon.ev("fixed values")
    mon.nontrivial(cls.__name__, text, text2, before)


# ---- numeric and text values in documents

def case_heads(rng, mon):
    """Change the head of text and number elements in a document."""
    q = lambda s: '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
    def string():
        s = rng.choice(WORDS)
        return s, q(s)
    def integer(lo=0):
        i = rng.randrange(lo, 200)
        return i, str(i)
    def fraction():
        a, b = rng.randint(1, 20), rng.choice((2, 4, 8, 16))
        return (a, b), "%d/%d" % (a, b)
    def octave():
        n = rng.choice((-3, -2, -1, 1, 2, 3))
        return n, octave_text(n)
    def octcheck():
        n = rng.randint(-3, 3)
        return n, "=" + octave_text(n)
    def dur():
        f = rng.choice(ALL_DURATIONS)
        return f, DOTTED[f]
    def scaling():
        f = rng.choice([s for s in SCALINGS if s != 1])
        return f, "*%s" % f
    def name():
        s = rng.choice("c cis des fis bes a gisis".split())
        return s, s
    def comment():
        s = rng.choice((" x", "", "% y", " %{ x", " { c }", "é"))
        return s, "%" + s
    def mcomment():
        s = rng.choice((" x ", "", "\n y\n ", " { c } ", "é%"))
        return s, "%{" + s + "%}"
    def ref():
        s = rng.choice("foo baz fooBar x-y".split())
        return s, "\\" + s
    def schemeint():
        i = rng.randrange(-20, 200)
        return i, str(i)
    cls, make, contexts = rng.choice((
        (lily.String, string, ["\\header { title = %s }", "{ c-%s d }", "\\markup { a %s }", "\\lyricmode { %s b }"]),
        (lily.Int, integer, ["foo = %s", "\\paper { x = %s\n y = 5\\mm }"]),
        (lily.Fraction, fraction, ["{ \\tuplet %s { c d e } }", "{ \\times %s { c d e } }", "{ \\time %s c }"]),
        (lily.Octave, octave, ["{ c%s d }", "{ cis%s4-. d }", "\\relative c%s { d }", "{ <c%s e> }"]),
        (lily.OctCheck, octcheck, ["{ c%s d }", "{ cis'%s4-. d }", "{ c%s }"]),
        (lily.Duration, dur, ["{ c%s d }", "{ <c e>%s( d) }", "{ r%s d }", "{ s%s }", "{ \\skip %s }", "{ \\tempo %s = 60 }", "\\lyricmode { a%s b }"]),
        (lily.DurationScaling, scaling, ["{ c4%s d }", "{ <c e>2.%s d }", "{ R1%s }"]),
        (lily.Note, name, ["{ %s d4 }", "{ r %s'4-. }"]),
        (lily.SinglelineComment, comment, ["{ c %s\n d }", "%s\n{ c }", "\\header { %s\n}"]),
        (lily.MultilineComment, mcomment, ["{ c %s d }", "%s { c }", "\\header { %s }"]),
        (lily.IdentifierRef, ref, ["{ %s d }", "music = %s", "\\header { title = %s\n }"]),
        (scm.Number, schemeint, ["foo = #%s\n", "{ \\override Stem.length = #%s }", "#(list 'a %s)\n", "{ #'(a . %s) }"]),
    ))
    (v1, t1), (v2, t2) = make(), make()
    before, after = rng.choice(contexts).split("%s")
    ctx = dict(cls=cls.__name__, text=before + t1 + after, value=str(v2))
    d = Doc(before + t1 + after)
    l = [x for x in d.tree.descendants() if type(x) is cls]
    mon.check(len(l) >= 1 and any(x.head == v1 for x in l), "head-read", "reading gives %r" % [(x, x.head) for x in l], **ctx)
    n = next(x for x in l if x.head == v1 and x.head_origin[0].pos == len(before))
    n.head = v2
    mon.check(n.head == v2, "head", "head is %r" % (n.head,), **ctx)
    new = d.edited()
    want = before + t2 + after if v1 != v2 else d.text
    mon.check(new == want, "head-edit", "text %r, should be %r" % (new, want), **ctx)
    t = quiet(read.lily_document, new)
    l2 = [x for x in t.descendants() if type(x) is cls]
    mon.check([x.head for x in l2] == [x.head for x in l], "head-reread", "values are %r, should be %r" % ([x.head for x in l2], [x.head for x in l]), **ctx)
    mon.ev("numbers")
    mon.nontrivial(cls.__name__, before, t1, t2)


STREAMS = {
    "durable": Stream(case_durable, 14000, 250000),
    "vars": Stream(case_vars, 9000, 160000),
    "names": Stream(case_names, 9000, 120000),
    "fixed": Stream(case_fixed, 4000, 60000),
    "heads": Stream(case_heads, 7000, 120000),
}
