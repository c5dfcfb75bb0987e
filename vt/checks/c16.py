r"""C16: editing the rhythm."""
import re
from fractions import Fraction

import parce
import quickly
from quickly import rhythm
from quickly.dom import lily
from quickly.duration import Transform
from quickly.node import Range

from vt import refly
from vt.core import Stream
from vt.musgen import MusGen
from vt.muscheck import Doc, quiet

PROPERTY = "C16"
RULE = ("Generated documents (notes, chords, rests, skips, bare durations, bass figures, drums, lyrics, tuplets, grace notes, scaled "
        "durations, markup scores, variables, comments everywhere) get every rhythm operation, as a whole, on a range of nodes or on "
        "a selection of a parce document. An independent LilyPond evaluator reads the durations, written and in effect, from the text "
        "before and after, and for every operation a reference computes which duration each note must have afterwards. All other "
        "text must be the same, and so must all durations outside the selection; explicit and implicit may not change any duration "
        "in effect. Non-trivial: the text changed; distinct by text and operation.")
ASSUMPTIONS = ["durations are not shifted to more than \\maxima or less than 1/4096",
               "selections that end inside a note without duration are not judged; when the note has a duration, that must be in the selection",
               "the notes before the first explicit duration in the selection are not judged for implicit per line, except that their durations "
               "in effect remain"]
OPS = ("explicit", "implicit", "perline", "remove", "remove_scaling", "remove_fraction", "transform", "copy", "copy_explicit", "paste")
NEED = OPS + ("whole", "range", "cursor", "in effect same", "rest same", "outside unchanged", "not removable", "skip", "chord", "lyric", "figure",
              "drum", "unpitched", "scaled", "other command transformed", "may stay", "line start", "pasted none", "pasted scaled", "empty selection", "partially selected",
              "grace", "tuplet", "markup score", "one note selected")

WS = re.compile(r"(?:\s+|%\{.*?%\}|%[^\n]*)*", re.S)


def skeleton(text, doc):
    return "".join(refly.masked(text, [s[:2] for s in doc.durspans], " ").split())


def required(m):
    return m.kind == "skip" or getattr(m, "unpitched", False)


def removable(text, ds, i):
    """True, False or None (both are allowed)."""
    m = ds[i]
    if required(m):
        return False
    if i + 1 < len(ds) and getattr(ds[i + 1], "unpitched", False):
        between = WS.sub("", text[m.end:ds[i + 1].pos])
        if not between:
            return False
        if between == "\\rest":
            return None
    return True


def shifted(d, log, dots):
    l, n = refly.log_dots(d)
    l, n = l + log, max(0, n + dots)
    base = Fraction(2) ** -l
    return base * 2 - base / 2 ** n, l


def ranges(rng, mon, text, doc):
    """Return (kind, function to get the music from (tree or Document), list of booleans or None)."""
    ds = doc.durables
    k = rng.random()
    if k < .35 or not ds:
        return "whole", None, [True] * len(ds)
    if k < .7:
        return "range", None, None
    return "cursor", None, None


def op_range(rng, tree, nodes, doc):
    """A node range, with for each durable whether it is in the range."""
    order = [n for n in tree.descendants()]
    index = {id(n): i for i, n in enumerate(order)}
    def last(n):
        while len(n):
            n = n[-1]
        return n
    if rng.random() < .6:
        i = rng.randrange(len(nodes))
        j = min(len(nodes) - 1, i + rng.choice([0, 1, 2, 3, 5, 10, 30]))
        a, b = nodes[i], nodes[j]
        if rng.random() < .6 or a is b:
            b = last(b)
    else:
        i = rng.randrange(len(order))
        a, b = order[i], order[min(len(order) - 1, i + rng.choice([0, 1, 3, 10, 30, 100]))]
    ia, ib = index[id(a)], index[id(b)]
    root = rng.random() < .5
    k = rng.random()
    if k < .1:
        r, ia, ib = Range.from_nodes(None, b), 0, ib
    elif k < .2:
        r, ia, ib = Range.from_nodes(a), ia, len(order)
    else:
        r = Range.from_nodes(a, b, root)
    sel = []
    for n in nodes:
        i, j = index[id(n)], index[id(last(n))]
        inside = ia <= i <= ib
        if inside and j > ib and n is not b:
            return None
        if r.ancestor() is n:
            inside = False
        sel.append(inside)
    return r, sel


def op_cursor(rng, mon, text, nodes):
    pos = sorted({n.pos for n in nodes})
    if rng.random() < .7:
        i = rng.randrange(len(nodes))
        a = nodes[i].pos
        b = nodes[min(len(nodes) - 1, i + rng.choice([0, 0, 1, 2, 3, 5, 10, 30]))].end
    else:
        a, b = sorted(rng.randrange(len(text) + 1) for i in range(2))
    if a >= b:
        return None
    sel = []
    for n in nodes:
        if n.pos < a or n.pos >= b:
            sel.append(False)
        elif n.end <= b:
            sel.append(True)
        else:
            # partially selected; it's the duration that counts
            d = next(n / lily.Duration, None)
            if d is None:
                return None
            sel.append(d.end <= b)
            mon.ev("partially selected")
    if not any(sel):
        mon.ev("empty selection")
    elif sum(sel) == 1:
        mon.ev("one note selected")
    return a, b, sel


def run(op, music, par):
    if op == "explicit": return rhythm.explicit(music)
    if op == "implicit": return rhythm.implicit(music)
    if op == "perline": return rhythm.implicit(music, True)
    if op == "remove": return rhythm.remove(music)
    if op == "remove_scaling": return rhythm.remove_scaling(music)
    if op == "remove_fraction": return rhythm.remove_fraction_scaling(music)
    if op == "copy": return rhythm.copy(music)
    if op == "copy_explicit": return rhythm.copy(music, True)
    if op == "paste": return rhythm.paste(music, *par)
    if op == "transform": return rhythm.transform(music, *par)


def expect(op, par, text, doc, sel, mon):
    """The set of allowed durations for every durable."""
    ds = doc.durables
    out = [{m.dur} for m in ds]
    rm = [removable(text, ds, i) for i in range(len(ds))]
    prev = None
    n = 0
    for i, m in enumerate(ds):
        if not sel[i]:
            continue
        keep = lambda: {m.dur} | ({None} if rm[i] is None else set())
        if rm[i] is None:
            mon.ev("may stay")
        if op == "explicit":
            out[i] = {m.edur}
        elif op == "implicit":
            if m.dur is not None:
                if m.dur == prev and rm[i] is not False:
                    out[i] = {None} if rm[i] else keep()
                else:
                    if m.dur == prev: mon.ev("not removable")
                    if m.kind != "skip":
                        prev = m.dur
        elif op == "perline":
            line = text.count("\n", 0, m.pos)
            if m.dur is not None:
                if prev and (m.dur, line) == prev and rm[i] is not False:
                    out[i] = {None} if rm[i] else keep()
                elif m.kind != "skip":
                    prev = m.dur, line
            elif prev:
                if prev[1] != line:
                    out[i] = {prev[0]}
                    prev = prev[0], line
                    mon.ev("line start")
            else:
                out[i] = {None, m.edur}
        elif op == "remove":
            if rm[i]:
                out[i] = {None}
            elif rm[i] is None:
                out[i] = keep()
            else:
                mon.ev("not removable")
        elif op == "remove_scaling":
            if m.dur: out[i] = {(m.dur[0], 1)}
        elif op == "remove_fraction":
            if m.dur and m.dur[1].denominator != 1:
                out[i] = {(m.dur[0], 1)}
            elif m.dur:
                out[i] = {m.dur, (m.dur[0], 1)} if "/" in text[m.pos:m.end] else {m.dur}
        elif op == "transform":
            if m.dur:
                out[i] = {transformed(m.dur, par)}
        elif op == "paste":
            durs, cycle = par
            if n >= len(durs) and not cycle:
                continue
            d = durs[n % len(durs)]
            n += 1
            if d:
                d = exact(d)
                out[i] = {d}
                prev = d
                if d[1] != 1: mon.ev("pasted scaled")
            else:
                mon.ev("pasted none")
                if rm[i]: out[i] = {None}
                elif prev: out[i] = {prev} | ({None} if rm[i] is None else set())
    return out


def exact(d):
    return Fraction(d[0]).limit_denominator(), Fraction(d[1]).limit_denominator()


def transformed(d, par):
    log, dots, scale = par
    return (shifted(d[0], log, dots)[0] if log or dots else d[0]), d[1] * Fraction(scale).limit_denominator()


def parameter(rng, op, doc):
    if op == "paste":
        durs = []
        for i in range(rng.choice([1, 2, 3, 5, 20])):
            if rng.random() < .25:
                durs.append(None)
                continue
            d = Fraction(rng.choice([1, 2, 4, Fraction(1, 2), Fraction(1, 4), Fraction(1, 8), Fraction(3, 8), Fraction(3, 4), Fraction(1, 16), Fraction(7, 32)]))
            s = rng.choice([1, 1, 1, 2, Fraction(1, 2), Fraction(2, 3)])
            if rng.random() < .3:
                d = float(d)
            if rng.random() < .3:
                s = float(s)
            durs.append((d, s))
        return durs, rng.random() < .6
    if op == "transform":
        scale = rng.choice([1, 1, 1, 2, Fraction(1, 2), Fraction(2, 3)])
        return rng.choice([0, 1, -1, 2, -2, 0, 3]), rng.choice([0, 0, 1, 2, -1, -2]), scale


def case(rng, mon):
    g = MusGen(rng, without={"language"} if rng.random() < .5 else (), comments=rng.choice([0, .05, .2]), extra=("volta", "after"))
    if rng.random() < .3:
        g.single, g.tight = .6, .7
    text = g.document(rng.randint(0, 3), rng.randint(1, 3))
    doc = refly.parse(text)
    ds = doc.durables
    if not ds:
        return
    op = rng.choice(OPS)
    par = parameter(rng, op, doc)
    if op == "transform":
        for a, b, m in doc.durspans:
            if m.dur and not -3 <= shifted(m.dur[0], par[0], par[1])[1] <= 12:
                mon.ev("skipped: shifted too far")
                return
    kind = rng.choice(["whole", "range", "cursor"]) if op != "perline" else rng.choice(["whole", "cursor"])
    live = kind == "cursor" or op == "perline"
    if live:
        pdoc = parce.Document(quickly.find("lilypond"), text, transformer=True)
        tree = quiet(pdoc.get_transform, True)
    else:
        d = Doc(text)
        tree = d.tree
    nodes = {}
    for n in tree // lily.Durable:
        if not isinstance(n.parent, lily.ChordBody) and not (isinstance(n, lily.Skip) and not any(n / lily.Duration)):
            nodes[n.pos] = n
    if set(nodes) != {m.pos for m in ds}:
        mon.fail("other-durables", "the durable elements are at %s instead of %s" % (sorted(nodes), sorted({m.pos for m in ds})), text=text)
    nodes = [nodes[m.pos] for m in ds]
    extra = {}
    if kind == "whole":
        sel = [True] * len(ds)
        music = parce.Cursor(pdoc) if live and rng.random() < .5 else pdoc if live else rng.choice([tree, Range(tree)])
    elif kind == "range":
        r = op_range(rng, tree, nodes, doc)
        if not r:
            mon.ev("skipped: partial")
            return
        music, sel = r
    else:
        r = op_cursor(rng, mon, text, nodes)
        if not r:
            mon.ev("skipped: partial")
            return
        a, b, sel = r
        extra["selection"] = text[a:b]
        music = parce.Cursor(pdoc, a, b)
    if kind != "cursor":
        extra["selected"] = [text[m.pos:m.end] for m, s in zip(ds, sel) if s][:1000]
    result = quiet(run, op, music, par)
    if live:
        new = pdoc.text()
    else:
        new = d.result()
    info = dict(op=op, par=repr(par), before=text, after=new, **extra)
    mon.ev(kind)
    mon.ev(op)
    if op.startswith("copy"):
        want = [m.edur if op == "copy_explicit" else m.dur for m, s in zip(ds, sel) if s]
        mon.check(list(result) == want, "copied", "copied %s, expected %s" % (result, want), **info)
        mon.check(new == text, "copy-changed", "copying changed the text", **info)
        if len(want) > 2:
            mon.nontrivial(text, op)
        return
    doc2 = refly.parse(new)
    ds2 = doc2.durables
    x, y = skeleton(text, doc), skeleton(new, doc2)
    if x != y:
        n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        mon.fail("other-text", "other text changed: %r / %r" % (x[max(0, n-40):n+40], y[max(0, n-40):n+40]), **info)
    mon.ev("rest same")
    mon.check([m.kind for m in ds] == [m.kind for m in ds2], "other-notes", "not the same sequence of notes", **info)
    out = expect(op, par, text, doc, sel, mon)
    for m, m2, want, s in zip(ds, ds2, out, sel):
        mon.check(m2.dur in want, "wrong-duration" if s else "outside-changed",
            "%r has %s, expected %s" % (text[m.pos:m.end], m2.dur, want), at=m.pos, **info)
        mon.ev("outside unchanged" if not s else "unpitched" if getattr(m, "unpitched", False) else m.kind)
        if m.dur and m.dur[1] != 1:
            mon.ev("scaled")
        if op in ("explicit", "implicit", "perline"):
            mon.check(m.edur == m2.edur, "effect-changed", "%r had duration %s, now %s" % (text[m.pos:m.end], m.edur, m2.edur), at=m.pos, **info)
            mon.ev("in effect same")
    # other commands
    other = [(m.kind, m.dur) for a, b, m in doc.durspans if m not in ds]
    other2 = [(m.kind, m.dur) for a, b, m in doc2.durspans if m not in ds2]
    mon.check(len(other) == len(other2), "other-commands", "not the same durations in other commands", **info)
    for (k, d), (k2, d2) in zip(other, other2):
        want = {d}
        if op == "transform":
            t = transformed(d, par)
            if k == "tempo":
                t = t[0], Fraction(1)
            want = {t} if kind == "whole" else want | {t}
            mon.ev("other command transformed")
        mon.check(d2 in want, "other-command", "duration in \\%s changed to %s, expected %s" % (k, d2, want), **info)
    for m in doc.walk():
        if getattr(m, "name", None) in refly.GRACE: mon.ev("grace")
        elif m.kind == "scaled": mon.ev("tuplet")
        elif m.kind == "score": mon.ev("markup score")
    if text != new:
        mon.nontrivial(text, op)
        mon.sample(dict(before=text, op=op, par=repr(par), after=new, kind=kind))


STREAMS = {
    "edit": Stream(case, 3000, 80000),
}
