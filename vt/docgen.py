r"""Random HTML and LaTeX documents with embedded LilyPond, and hostile text.

The generators return the text and an own description (spec) of what is in the
document, made while generating, independent of the reader:

    ("tag", name, [(attr, value)...], kind, [children])    kind: open|single|void
    ("text", plain)    character data, entities resolved
    ("comment", text) ("cdata", text) ("pi", text) ("raw", text)
    ("lily", kind, name, attrs, music)
    ("cmd", name, [options], brace or None) ("env", name, options, children)
    ("math", delimiter, children) ("brace", children)
"""
import html
import random

from vt.lygen import LyGen

TAGS = "p div h1 b em table tr td ul li section a span".split()
VOID = "br hr img meta link input".split()
ENT = ["&amp;", "&lt;", "&gt;", "&quot;", "&eacute;", "&#65;", "&#x3bb;", "&copy;"]
WORDS = ["Hello", "some text", "x", "1 2 3", "Ünïcode", "It's", 'say "hi"', "a > b", "AT&T", "a & b", "100%", "{braces}", "line\nbreak", "  spaced  ", "$5", "tab\there"]
ATTRS = ["id", "class", "href", "title", "data-x", "xml:lang", "lang"]
LYATTR = [("staffsize", "2", None), ("staffsize", "26.5", None), ("relative", None, None), ("relative", "2", None), ("quote", None, None),
          ("verbatim", None, None), ("fragment", None, None), ("line-width", "14", "cm"), ("indent", "5", "mm"), ("ragged-right", None, None),
          ("alt", '"a picture"', None), ("filename", '"x.ly"', None), ("filename", "'y.ly'", None)]


class HtmGen:
    def __init__(self, rng, untransformed=True):
        self.r = rng
        self.un = untransformed
        self.out = []
        self.music_count = 0

    def w(self, *t): self.out.extend(t)
    def p(self, x): return self.r.random() < x

    def ws(self, req=False):
        s = self.r.choice([" ", " ", "  ", "\n", "\t"]) if req else self.r.choice(["", "", "", " ", "\n"])
        self.w(s)

    def music(self, stop):
        """A piece of LilyPond text without HTML-like closers."""
        for _ in range(20):
            g = LyGen(self.r, comments=0.02, size=.6)
            t = g.render(g.musiclist(1) if self.p(.6) else g.toplevel(1))
            if not any(s in t for s in stop):
                return t
        return "{ c d e }"

    def text(self):
        s = ""
        for _ in range(self.r.randint(1, 3)):
            if self.p(.3):
                t = self.r.choice(ENT)
                if s.endswith("&") or s.endswith("AT&T"):
                    s += " "; self.w(" ")
                self.w(t); s += html.unescape(t)
            else:
                t = self.r.choice(WORDS) + " "
                self.w(t); s += t
        return ("text", s)

    def attr(self):
        name = self.r.choice(ATTRS)
        if self.p(.1):
            self.w(name)
            return (name, None)
        q = self.r.choice("\"'")
        self.w(name); self.ws() if self.p(.1) else None
        self.w("="); self.ws() if self.p(.1) else None
        self.w(q)
        s = ""
        for _ in range(self.r.randint(0, 2)):
            if self.p(.25):
                e = self.r.choice(ENT)
                self.w(e); s += html.unescape(e)
            else:
                t = self.r.choice(["val", "a b", "http://x.org/?a=1", "it's" if q == '"' else 'a "b"', "a > b", "x & y ", "", " "])
                self.w(t); s += t
        self.w(q)
        return (name, s)

    def attrs(self):
        a = []
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            self.ws(True)
            a.append(self.attr())
        return a

    def lyattrs(self):
        a = []
        for _ in range(self.r.choice([0, 0, 1, 2, 3])):
            n, v, u = self.r.choice(LYATTR)
            self.ws(True)
            self.w(n)
            if v is not None:
                self.w("=", v)
                if u: self.w("\\" if False else "", u)
            a.append((n, v.strip("\"'") if v else v, u))
        return a

    def node(self, d):
        k = self.r.randrange(14)
        if k <= 3: return [self.text()]
        if k <= 6 and d > 0: return [self.tag(d)]
        if k == 7:
            name = self.r.choice(VOID)
            self.w("<", name); a = self.attrs(); self.ws(); self.w(self.r.choice([">", "/>", " />", "/ >"]))
            return [("tag", name, a, "void", [])]
        if k == 8:
            t = self.r.choice(["", " comment ", "a\nb", " <p>no</p> ", " 'q\" & ", "-"])
            if t.endswith("-"): t += " "
            self.w("<!--", t, "-->")
            return [("comment", t)]
        if k == 9:
            t = self.r.choice(["", "x", " a < b & c ", "<p>", "]", "]] >", "line\nline"])
            self.w("<![CDATA[", t, "]]>")
            return [("cdata", t)]
        if k == 10:
            t = self.r.choice(['<?xml version="1.0"?>', "<?php echo 1 ?>", '<?php if (a > b && "x<y") ?>', "<?x y='z'?>", '<?p "a&amp;b" ?>'])
            self.w(t)
            return [("pi", t)]
        if k == 11 and self.un:
            t = self.r.choice(["<style>p { color: red }</style>", "<script>var x = 1 < 2;</script>", '<script src="x.js">f();</script>', '<style type="text/css">a{b:c}</style>'])
            self.w(t)
            return [("raw", t)]
        return [self.lily()]

    def lily(self):
        k = self.r.randrange(5)
        if k <= 1:      # <lilypond attrs> music </lilypond>
            self.w("<lilypond"); a = self.lyattrs(); self.ws() if self.p(.3) and a else None; self.w(">")
            m = self.music(["</", "< /"])
            self.w(m, self.r.choice(["\n</lilypond>", " </lilypond>"]))
            return ("lily", "long", "lilypond", a, m)
        if k <= 3:
            self.w("<lilypond"); a = self.lyattrs(); self.ws(not a); self.w(":")
            m = self.music(["/>"])
            self.w(" ", m, " />")
            return ("lily", "short", "lilypond", a, m)
        n = self.r.choice(["lilypondfile", "musicxmlfile"])
        self.w("<" + n); a = self.lyattrs(); self.w(">file.ly</%s>" % n)
        return ("lily", "file", n, a, "file.ly")

    def tag(self, d):
        name = self.r.choice(TAGS)
        self.w("<", name)
        a = self.attrs()
        if self.un and self.p(.06):
            self.w(' style="color: red"')
            a.append(("style", None))
        if self.p(.15):
            self.ws(); self.w(self.r.choice(["/>", "/>", "/ >", "/\n>"]))
            return ("tag", name, a, "single", [])
        if self.p(.1): self.ws()
        self.w(">")
        c = self.children(d - 1)
        self.w("</", name, ">")
        return ("tag", name, a, "open", c)

    def children(self, d):
        c = []
        for _ in range(self.r.randint(0, 4)):
            c += self.node(d)
            if self.p(.2):
                self.w("\n"); c.append(("text", "\n"))
        return c

    def document(self):
        c = []
        if self.un and self.p(.25):
            t = "<!DOCTYPE html>"
            self.w(t); c.append(("raw", t))
        for _ in range(self.r.randint(1, 3)):
            c += self.node(2) if self.p(.3) else [self.tag(3)]
        return "".join(self.out), c


class TexGen:
    ENV = "document itemize center figure equation displaymath quote".split()
    CMD = r"\section \textbf \emph \usepackage \documentclass \item \LaTeX \maketitle \lilypondfile \musicxmlfile".split()
    TXT = ["Some text", "x", "with \\& escape", "100\\%", "\\\\", "a & b", "\n\n", " ", "--- dash", "Ünï", "it's ``so''", "a_b", "~", "{\\ss}", "\\'{e}", "(a)", "\\#5"]
    MATH = ["x^2", "a+b", "\\alpha", "f(x)", "1.5", " = ", "\\frac{1}{2}", "{x_{i}}", "|y|", "x'", "\\ "]

    def __init__(self, rng):
        self.r = rng
        self.out = []

    def w(self, *t): self.out.extend(t)
    def p(self, x): return self.r.random() < x

    music = HtmGen.music

    def opt(self):
        t = self.r.choice(["12pt", "quote, staffsize=26", "a=b", "", "utf8", "fragment,relative=2", "line-width=5\\cm"])
        self.w("[", t, "]")
        return t

    def text(self):
        t = self.r.choice(self.TXT)
        if t.startswith("{") and self.out and self.out[-1].endswith("]"): self.w(" ")
        if self.out and self.out[-1] and self.out[-1][-1].isalpha() and t[0].isalpha() and "\\" in self.out[-1]:
            self.w(" ")
        self.w(t)
        return ("text", t)

    def children(self, d, n=4):
        c = []
        for _ in range(self.r.randint(0, n)):
            c.append(self.node(d))
        return c

    def math(self):
        o, e = self.r.choice([("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")])
        t = " ".join(self.r.choice(self.MATH) for _ in range(self.r.randint(1, 4)))
        if self.out and self.out[-1] and self.out[-1][-1] in "$\\": self.w(" ")
        self.w(o, t, e)
        return ("math", o, t)

    def node(self, d):
        k = self.r.randrange(13)
        if k <= 2: return self.text()
        if k == 3:
            t = self.r.choice(["", " comment", " \\begin{x} $ {", "% %"])
            self.w("%", t, "\n")
            return ("comment", t)
        if k == 4: return self.math()
        if k == 5 and d > 0:
            if self.out and self.out[-1].endswith("]"): self.w(" ")     # not an argument
            self.w("{"); c = self.children(d - 1, 2); self.w("}")
            return ("brace", c)
        if k <= 7:
            n = self.r.choice(self.CMD); o = []
            self.w(n)
            while self.p(.3) and len(o) < 2:
                if self.p(.1): self.w(" ")
                o.append(self.opt())
            b = None
            if self.p(.6) or not o:
                self.w("{")
                if "file" in n: self.w("x.ly"); b = [("text", "x.ly")]
                else: b = self.children(d - 1, 2) if d > 0 else []
                self.w("}")
            return ("cmd", n[1:], o, b)
        if k <= 9 and d > 0:
            n = self.r.choice(self.ENV); o = []
            if self.p(.2): self.w("\n")
            self.w("\\begin")
            if self.p(.25): o.append(self.opt())
            self.w("{", n, "}")
            if n in ("equation", "displaymath"):
                t = " ".join(self.r.choice(self.MATH) for _ in range(self.r.randint(1, 3)))
                self.w(t); c = [("text", t)]
            else:
                c = [("text", "\n")] * self.p(.4)
                if c: self.w("\n")
                c = self.children(d - 1)
            self.w("\\end{", n, "}")
            return ("env", n, o, c)
        return self.lily()

    def lily(self):
        k = self.r.randrange(4)
        o = []
        if k <= 1:
            self.w("\\lilypond")
            if self.p(.4): o.append(self.opt())
            self.w("{")
            m = self.music(["\\end"])
            self.w(" ", m, " ", "}")
            return ("lily", "short", o, m)
        self.w("\\begin")
        if self.p(.2): o.append(self.opt())
        self.w("{lilypond}")
        if not o and self.p(.4):
            if self.p(.3): self.w(self.r.choice(["\n", " "]))
            o.append(self.opt())
        m = self.music(["\\end"])
        self.w("\n", m, "\n\\end{lilypond}")
        return ("lily", "env", o, m)

    def document(self):
        c = []
        if self.p(.5):
            self.w("\\documentclass"); o = [self.opt()] if self.p(.5) else []; self.w("{article}", "\n")
            c.append(("cmd", "documentclass", o, [("text", "article")]))
        c += self.children(3, 5)
        return "".join(self.out), c


# -- hostile text ----------------------------------------------------------------

JUNK = {
 "htm": ['<html>','</html>','<p>','</p>','<br>','<br/>','<lilypond>','</lilypond>','<lilypond ','<lilypond:',' c d e ','{','}','/>','>','<','<lilypondfile>','</lilypondfile>','<musicxmlfile ',' staffsize=2',' relative=','"','\'','<!--','-->','<![CDATA[',']]>','<?xml ','?>','&amp;','&','&#12;','<style>','</style>','<script>','x=1;','<!DOCTYPE html>','<!DOCTYPE','[',']',' style="','css',' a=b',' quote',' 2\\cm','x','text ','\n','=','file.ly',':', '<a href="x">','</a>','<lilypond fragment>','<LilyPond>','%','#','"a"','<style x','<script src="b"','<img src='],
 "tex": ['\\begin','{lilypond}','\\end','[quote]','[',']','{','}','\\lilypond','\\lilypondfile','{document}','$','$$','\\(','\\)','\\[','\\]','%','% c\n','text ','\\cmd','c d e','\\"o','{verbatim}','\\begin{lilypond}','\\end{lilypond}','\\begin[a]','\\lilypond[a]{','\\lilypond{','x','=','\n',' ','#','&','{equation}','\\begin{equation}','\\end{equation}','\\end{document}','\\begin{document}'],
 "scm": ['(',')','#(','"','\\"','a','\'','`',',',',@','#t','#f','#\\a','#\\space','1','1.5','-','+','/','.','e','#x','#b','#o','#e','#i','i','@','inf.0','+inf.0','-nan.0','#!','!#',';','\n',' ','#{','#}','c','define','lambda','...','#','0',' . ','##','\\','1/0','#e1.5', '{', '}'],
}
JUNK["lily"] = JUNK["scm"] + JUNK["tex"][:20] + ['c4','\\relative','\\key','<<','>>','\\\\','\\markup','\\lyricmode','\\score','=','\\header','~','4.','*2/3','\\repeat','\\tuplet','3/2','<','>','\\drummode','\\chordmode','\\figuremode','\\set','\\tweak','-','^','_','\\with','\\context','\\new','Staff','|','\\version','\\include','\\language','"english"','\\rest',"'",'!','?','q','r1','s','R','\\time','\\tempo','\\tag','#\'x','\\override','A.b', '\\etc', '\\paper', '\\layout', '\\midi', '\\book', '\\grace', '\\partial', '\\=', '\\1', '\u200b', '\x00', '\ufeff', '\r\n', '\r']


def junk(rng, kind):
    fr = JUNK[kind]
    return "".join(rng.choice(fr) for _ in range(rng.randint(0, rng.choice([3, 10, 40]))))


def damage(rng, text, kind):
    """Delete, duplicate, insert, truncate pieces of the text."""
    fr = JUNK[kind]
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(5)
        n = len(text)
        if k == 0 and n:
            a = rng.randrange(n); text = text[:a] + text[a + rng.choice([1, 1, 2, 5, 20]):]
        elif k == 1 and n:
            a = rng.randrange(n); c = rng.randint(0, n)
            text = text[:c] + text[a:a + rng.choice([1, 3, 10])] + text[c:]
        elif k == 2:
            a = rng.randint(0, n); text = text[:a] + rng.choice(fr) + text[a:]
        elif k == 3 and n:
            text = text[:rng.randrange(n)]
        else:
            a = rng.randint(0, n); text = text[:a] + " " + rng.choice(fr) + " " + text[a:]
    return text
