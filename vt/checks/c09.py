r"""C09: HTML and LaTeX documents, with the LilyPond inside."""
import contextlib
import html
import html.parser
import io
from xml.etree import ElementTree

from vt.core import Stream
from vt.docgen import HtmGen, TexGen
from vt.util import tree_diff, sig
from quickly.dom import read, util, htm, tex, lily, base, element

PROPERTY = "C09"
RULE = ("Generated HTML and LaTeX documents of which the generator knows the contents (tags, attributes, entities, comments, "
        "CDATA, processing instructions, environments, commands, options, math, embedded LilyPond in every notation). "
        "Monitors: the tree, described by an own walker, equals what was generated; embedded LilyPond equals the tree read "
        "from that music alone; the written document reads back as an equal tree and is written identically again. "
        "Constructed documents (htm.m, tex.Environment.with_name) are written, read and compared. "
        "Non-trivial: at least 4 described items; distinct by text.")
ASSUMPTIONS = ["style, script and doctype (htm.Unknown) are replaced using util.replace_unknown before writing, as documented",
               "a text with entities may be split differently in text and entity nodes after writing; those are compared as merged text",
               "LilyPond music in LaTeX is separated from the braces by whitespace, and contains no closing tag or \\end"]
NEED = ("html described", "latex described", "embedded lilypond", "html roundtrip", "latex roundtrip", "html kind comment", "html kind cdata",
        "html kind pi", "html kind lily", "html kind tag", "html kind text", "latex kind env", "latex kind cmd", "latex kind lily", "latex kind math",
        "constructed html", "constructed latex", "plaintext")


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


class Bad(Exception):
    pass


def merge(items):
    r"""Merge adjacent texts, drop empty ones."""
    out = []
    for i in items:
        if i[0] == "text" and out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + i[1])
        elif i[0] != "text" or i[1]:
            out.append(i)
    return out


def lily_sig(mon, node, text=None):
    return sig(node)


# -- HTML -----------------------------------------------------------------------

def htm_attrs(tag, text):
    out = []
    for a in tag:
        if isinstance(a, htm.Attribute):
            l = list(a)
            name = l[0].head
            if len(l) == 1:
                out.append((name, None, None))
            elif isinstance(l[2], htm.Number):
                out.append((name, l[2].write_head(), l[3].head if len(l) > 3 else None))
            elif isinstance(l[2], htm.String):
                s = "".join(c.head if isinstance(c, htm.Text) else html.unescape("&%s;" % c.head) for c in l[2])
                out.append((name, s, None))
            elif isinstance(l[2], base.Unknown):
                out.append((name, None, None) if name == "style" else (name, text[l[2].pos:l[2].end], "?"))
            else:
                raise Bad("attribute value %r" % l[2])
        elif not isinstance(a, (htm.TagName, htm.Colon, lily.Document)):
            raise Bad("in tag: %r" % a)
    return out


def htm_children(nodes, text):
    out = []
    for n in nodes:
        if isinstance(n, htm.Text):
            out.append(("text", n.head))
        elif isinstance(n, htm.EntityRef):
            out.append(("text", html.unescape("&%s;" % n.head)))
        elif isinstance(n, htm.Comment):
            out.append(("comment", n.head))
        elif isinstance(n, htm.CData):
            out.append(("cdata", n.head))
        elif isinstance(n, htm.ProcessingInstruction):
            out.append(("pi", text[n.pos:n.end]))
        elif isinstance(n, base.Unknown):
            out.append(("raw", text[n.pos:n.end]))
        elif isinstance(n, htm.Element):
            out.append(htm_element(n, text))
        else:
            raise Bad("unexpected %r" % n)
    return merge(out)


def htm_element(n, text):
    tag = n[0]
    name = tag[0].head
    if not isinstance(tag[0], htm.TagName):
        raise Bad("no tag name in %r" % tag)
    attrs = htm_attrs(tag, text)
    inner = [c for c in n[1:] if not isinstance(c, htm.CloseTag)]
    close = [c for c in n[1:] if isinstance(c, htm.CloseTag)]
    if close and (close[0] is not n[-1] or close[0][0].head != name):
        raise Bad("close tag of %s: %r" % (name, close))
    docs = [c for c in list(tag) + inner if isinstance(c, lily.Document)]
    if name == "lilypond":
        if len(docs) > 1 or (docs and docs[0] in inner and len(inner) > 1):
            raise Bad("contents of lilypond tag: %r" % (inner,))
        short = isinstance(tag, htm.SingleTag)
        if short and not [c for c in tag if isinstance(c, htm.Colon)]:
            raise Bad("no colon in the short lilypond tag")
        return ("lily", "short" if short else "long", name, attrs, docs[0] if docs else None)
    if name in ("lilypondfile", "musicxmlfile"):
        return ("lily", "file", name, attrs, "".join(c.head for c in inner))
    kind = "single" if isinstance(tag, htm.SingleTag) else "open" if close else "void"
    return ("tag", name, attrs, kind, htm_children(inner, text))


def squeeze(items):
    r"""Remove whitespace from texts."""
    return merge([("text", "".join(i[1].split())) if i[0] == "text" else i for i in items])


def exact(a, b):
    r"""Compare two descriptions from trees, including all whitespace."""
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, lily.Document):
        return tree_diff(a, b) is None
    return a == b


def compare(mon, lang, spec, got, path):
    spec = merge(spec)
    if lang == "latex":
        spec, got = squeeze(spec), squeeze(got)
    for i, (a, b) in enumerate(zip(spec, got)):
        p = "%s[%d]" % (path, i)
        if a[0] != b[0]:
            raise Bad("%s: %r expected, %r found" % (p, a, b))
        mon.ev("%s kind %s" % (lang, a[0]))
        if a[0] == "tag":
            attrs = [x if len(x) == 3 else (*x, None) for x in a[2]]
            if a[1] != b[1] or attrs != b[2] or not (a[3] == b[3] or (a[3] == "void" and b[3] == "single")):
                raise Bad("%s: %r expected, %r found" % (p, a[:4], b[:4]))
            compare(mon, lang, a[4], b[4], p + a[1])
        elif a[0] == "lily" and lang == "html":
            if a[1:3] != b[1:3] or [tuple(x) for x in a[3]] != b[3]:
                raise Bad("%s: %r expected, %r found" % (p, a, b))
            if a[1] == "file":
                if a[4] != b[4]:
                    raise Bad("%s: file %r expected, %r found" % (p, a[4], b[4]))
            else:
                music(mon, a[4], b[4], p)
        elif a[0] == "lily":
            if a[1:3] != b[1:3]:
                raise Bad("%s: %r expected, %r found" % (p, a, b))
            music(mon, a[3], b[3], p)
        elif a[0] in ("env", "cmd"):
            if a[1:3] != b[1:3] or (a[3] is None) != (b[3] is None):
                raise Bad("%s: %r expected, %r found" % (p, a, b))
            if a[3] is not None:
                compare(mon, lang, a[3], b[3], p + a[1])
        elif a[0] == "brace":
            compare(mon, lang, a[1], b[1], p + "{}")
        elif a != b:
            raise Bad("%s: %r expected, %r found" % (p, a, b))
    if len(spec) != len(got):
        raise Bad("%s: %d items expected, %d found: %r / %r" % (path, len(spec), len(got), spec[len(got):], got[len(spec):]))


def music(mon, text, doc, path):
    alone = quiet(read.lily_document, text)
    if doc is None:
        if len(alone):
            raise Bad("%s: no LilyPond document" % path)
        return
    d = tree_diff(alone, doc)
    if d:
        raise Bad("%s: embedded LilyPond differs: %s" % (path, d))
    mon.ev("embedded lilypond")


def norm(t):
    r"""Merge Text and EntityRef nodes."""
    for n in [t] + list(t.descendants()):
        if isinstance(n, htm.ProcessingInstruction):
            continue
        l = []
        for c in n:
            if isinstance(c, htm.EntityRef):
                c = htm.Text(html.unescape("&%s;" % c.head))
            if isinstance(c, htm.Text) and l and isinstance(l[-1], htm.Text):
                l[-1] = htm.Text(l[-1].head + c.head)
            else:
                l.append(c)
        n[:] = l
    return t


def roundtrip(mon, lang, f, d, text, g):
    raw = d.copy_with_origin()
    util.replace_unknown(d, text)
    w = d.write()
    d2 = quiet(f, w, True)
    got2 = g(d2, w)
    util.replace_unknown(d2, w)
    x = tree_diff(norm(d.copy()), norm(d2.copy()))
    mon.check(x is None, "reread", "tree differs after writing and reading: %s" % x, text=text, written=w)
    w2 = d2.write()
    mon.check(w == w2, "not-stable", "writing again gives other text", first=w, second=w2, text=text)
    mon.ev(lang + " roundtrip")
    return got2, w


def count(items):
    n = 0
    for i in items:
        n += 1
        for x in i:
            if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str):
                n += count(x)
    return n


def case_html(rng, mon):
    text, spec = HtmGen(rng).document()
    d = quiet(read.htm_document, text, True)
    try:
        got = htm_children(d, text)
        compare(mon, "html", spec, got, "")
    except Bad as e:
        mon.fail("html-content", str(e)[:700], text=text)
        return
    mon.ev("html described")
    got2, w = roundtrip(mon, "html", read.htm_document, d, text, lambda d, t: htm_children(d, t))
    try:
        compare(mon, "html", spec, got2, "")
    except Bad as e:
        mon.fail("html-written", "after writing and reading: " + str(e)[:700], text=text, written=w)
    mon.check(exact(got, got2), "html-whitespace", "after writing and reading: %r, was %r" % (got2, got), text=text, written=w)
    # the plain text
    plain = plaintext(spec)
    d = quiet(read.htm_document, text)
    mon.check(d.to_plaintext() == plain, "plaintext", "to_plaintext: %r, expected %r" % (d.to_plaintext(), plain), text=text)
    up = d.to_plaintext(lambda name: "<%s>" % name)
    exp = "".join(("<%s>" % n.head if isinstance(n, htm.EntityRef) else n.head)
                  for n in d.descendants() if isinstance(n, (htm.Text, htm.EntityRef)) and not any(isinstance(a, (htm.String, htm.ProcessingInstruction)) for a in n.ancestors()))
    mon.check(up == exp, "plaintext-resolver", "to_plaintext(resolver): %r, expected %r" % (up, exp), text=text)
    mon.ev("plaintext")
    if count(spec) >= 4:
        mon.nontrivial(text)
    mon.sample(text)


def plaintext(spec):
    out = []
    for i in spec:
        if i[0] == "text":
            out.append(i[1])
        elif i[0] == "tag":
            out.append(plaintext(i[4]))
        elif i[0] == "lily" and i[1] == "file":
            out.append(i[4])
    return "".join(out)


# -- LaTeX ----------------------------------------------------------------------

MATH = {"$": tex.MathInlineDollar, "$$": tex.MathDisplayDollar, "\\(": tex.MathInlineParen, "\\[": tex.MathDisplayBracket}


def tex_children(nodes, text):
    out = []
    for n in nodes:
        if isinstance(n, tex.Text):
            out.append(("text", n.head))
        elif isinstance(n, tex.Comment):
            out.append(("comment", n.head))
        elif isinstance(n, tex.Math):
            out.append(("math", n.head, text[n.pos + len(n.head):n.end - len(n.tail)]))
            if n.tail != text[n.end - len(n.tail):n.end] or MATH[n.head] is not type(n):
                raise Bad("math %r" % n)
        elif isinstance(n, tex.Brace):
            out.append(("brace", tex_children(n, text)))
        elif isinstance(n, tex.Environment):
            out.append(tex_env(n, text))
        elif isinstance(n, tex.Command):
            opts = [o for o in n if isinstance(o, tex.Option)]
            rest = [o for o in n if not isinstance(o, tex.Option)]
            if len(rest) > 1 or (rest and not isinstance(rest[0], tex.Brace)):
                raise Bad("command arguments %r" % (rest,))
            o = [options(o, text) for o in opts]
            if n.head == "lilypond":
                docs = [c for c in rest[0]] if rest else []
                out.append(("lily", "short", o, docs[0] if docs else None))
            else:
                out.append(("cmd", n.head, o, tex_children(rest[0], text) if rest else None))
        else:
            raise Bad("unexpected %r" % n)
    return merge(out)


def options(o, text):
    if text[o.pos] != "[" or text[o.end - 1] != "]":
        raise Bad("option %r" % o)
    return text[o.pos + 1:o.end - 1]


def tex_env(n, text):
    begin, end = n[0], n[-1]
    if begin.head != "begin" or end.head != "end":
        raise Bad("environment %r" % list(n))
    names = [c.head for c in begin if isinstance(c, tex.EnvironmentName)]
    ends = [c.head for c in end]
    if len(names) != 1 or names != ends:
        raise Bad("environment names %r" % (names + ends))
    o = [options(c, text) for c in begin if isinstance(c, tex.Option)]
    inner = list(n)[1:-1]
    if names[0] == "lilypond":
        if len(inner) > 1:
            raise Bad("lilypond environment %r" % inner)
        return ("lily", "env", o, inner[0] if inner else None)
    if names[0] in ("equation", "displaymath"):
        return ("env", names[0], o, [("text", text[begin.end:end.pos])])
    return ("env", names[0], o, tex_children(inner, text))


def case_latex(rng, mon):
    text, spec = TexGen(rng).document()
    d = quiet(read.tex_document, text, True)
    try:
        got = tex_children(d, text)
        compare(mon, "latex", spec, got, "")
    except Bad as e:
        mon.fail("latex-content", str(e)[:700], text=text)
        return
    mon.ev("latex described")
    got2, w = roundtrip(mon, "latex", read.tex_document, d, text, lambda d, t: tex_children(d, t))
    try:
        compare(mon, "latex", spec, got2, "")
    except Bad as e:
        mon.fail("latex-written", "after writing and reading: " + str(e)[:700], text=text, written=w)
    mon.check(exact(got, got2), "latex-whitespace", "after writing and reading: %r, was %r" % (got2, got), text=text, written=w)
    if count(spec) >= 4:
        mon.nontrivial(text)
    mon.sample(text)


# -- constructed documents ---------------------------------------------------------

class Collect(html.parser.HTMLParser):
    r"""An independent parser: the tags, attributes and texts."""
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.out = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.out.append(("start", tag, attrs))

    def handle_startendtag(self, tag, attrs):
        self.out.append(("single", tag, attrs))

    def handle_endtag(self, tag):
        self.out.append(("end", tag))

    def handle_data(self, data):
        if self.out and self.out[-1][0] == "text":
            self.out[-1] = ("text", self.out[-1][1] + data)
        else:
            self.out.append(("text", data))

    def handle_comment(self, data):
        self.out.append(("comment", data))


PLAIN = ["Hello", "a < b", "x & y", "&amp;", 'say "hi"', "it's", "1 > 0", "é音", "  two  ", "]]>", "line\nbreak", "</p>", "&#12;"]


def build(rng, d, plain):
    r"""Return (node, events) for a constructed element."""
    name = rng.choice("p div h1 b em ul li x:y a".split())
    attrs = {}
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        attrs[rng.choice(["id", "title", "xml:lang", "data-x", "cls"])] = rng.choice([None, "v", "a b", 'q"q', "a & b", "<x>", "it's", ""])
    children, events = [], []
    for _ in range(rng.randint(0, 3) if d else 0):
        k = rng.randrange(4)
        if k <= 1:
            t = rng.choice(PLAIN)
            children.append(t)
            plain.append(t)
            events.append(("text", t))
        elif k == 2:
            t = rng.choice(["", " x ", "a < b", "-x"])
            children.append(htm.Comment(t))
            events.append(("comment", t))
        else:
            c, e = build(rng, d - 1, plain)
            children.append(c)
            events += e
    a = list(attrs.items())
    node = htm.m(name, *children, **attrs) if rng.random() < .5 or ":" in name else getattr(htm.m, name)(*children, **attrs)
    if children:
        events = [("start", name, a)] + events + [("end", name)]
    else:
        events = [("single", name, a)]
    return node, events


def joined(events):
    out = []
    for e in events:
        if e[0] == "text" and out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + e[1])
        elif e[0] != "text" or e[1]:
            out.append(e)
    return out


def case_constructed(rng, mon):
    # HTML
    plain = []
    node, events = build(rng, 3, plain)
    events = joined(events)
    w = node.write()
    got = Collect(w).out
    mon.check(got == events, "constructed-html", "written %r is parsed as %r, expected %r" % (w, got, events))
    mon.check(node.to_plaintext() == "".join(plain), "constructed-plaintext", "%r, expected %r" % (node.to_plaintext(), "".join(plain)))
    doc = quiet(read.htm_document, w)
    w2 = doc.write()
    mon.check(Collect(w2).out == events, "constructed-html-again", "written again %r" % w2, first=w)
    mon.check(doc.to_plaintext() == "".join(plain), "constructed-plaintext-again", "%r, expected %r" % (doc.to_plaintext(), "".join(plain)), text=w)
    mon.ev("constructed html")
    # CDATA
    t = "".join(rng.choice(["]", "]]", "]]>", ">", "a", "<b>", "&amp;", " ", "]]>]]>", "<![CDATA["]) for _ in range(rng.randint(0, 5)))
    w = htm.CData(t).write()
    got = ElementTree.fromstring("<r>%s</r>" % w).text or ""
    mon.check(got == t, "constructed-cdata", "CDATA %r is written as %r" % (t, w))
    mon.ev("constructed cdata")
    # LilyPond in a HTML tag
    g = HtmGen(rng)
    m = g.music(["</", "/>", "#", "$"])
    ld = quiet(read.lily_document, m)
    if len(ld):
        mus = ld.copy()
        short = rng.random() < .5
        if short:
            node = htm.Element(htm.SingleTag(htm.TagName("lilypond"), htm.Colon(), mus))
        else:
            node = htm.Element(htm.OpenTag(htm.TagName("lilypond")), mus, htm.CloseTag(htm.TagName("lilypond")))
        w = node.write()
        d = quiet(read.htm_document, w)
        docs = list(d // lily.Document)
        mon.check(len(docs) == 1 and tree_diff(docs[0], ld) is None, "constructed-lilypond-html",
                  "LilyPond written in a tag is read differently: %s" % (docs and tree_diff(docs[0], ld)), written=w)
        env = tex.Environment.with_name("lilypond", ld.copy())
        if rng.random() < .5:
            env = tex.Document(tex.Text("text"), env, tex.Text("more"))
        w = env.write()
        if "\\end" not in ld.write():
            d = quiet(read.tex_document, w)
            docs = list(d // lily.Document)
            mon.check(len(docs) == 1 and tree_diff(docs[0], ld) is None, "constructed-lilypond-latex",
                      "LilyPond written in an environment is read differently: %s" % (docs and tree_diff(docs[0], ld)), written=w)
        mon.ev("constructed latex")
    mon.nontrivial(w)
    mon.sample(w)


STREAMS = {
    "constructed": Stream(case_constructed, 2000, 40000),
    "html": Stream(case_html, 3000, 60000),
    "latex": Stream(case_latex, 3000, 60000),
}
