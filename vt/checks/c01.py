"""C01: node trees: editing history vs a plain model tree."""
import contextlib
import gc
import io
import weakref

from vt.core import Stream
from quickly.node import Node

PROPERTY = "C01"
RULE = ("Random histories of tree edits (append, extend, insert, item and slice assignment, replace, take, delete, "
        "copy) on trees of six node classes, mirrored on a plain parent/children table; after the history all "
        "navigation and query results of every node are compared with brute force over the table. Non-trivial: tree "
        "with at least 4 nodes and depth 2; distinct by final tree shape.")
ASSUMPTIONS = ["single threaded use"]
NEED = ("edits", "parent", "trail", "descendants", "forward", "common_ancestor", "operators", "pruned", "copy", "freed", "listed")


class A(Node):
    __slots__ = ("val",)
    def __init__(self, *children, val=0):
        super().__init__(*children)
        self.val = val
    def body_equals(self, other):
        return self.val == other.val
    def copy(self, with_children=True):
        c = super().copy(with_children)
        c.val = self.val
        return c


class B(A):
    __slots__ = ()


class C(A):
    __slots__ = ()


class D(B):
    __slots__ = ()


class P(Node):
    __slots__ = ()


class Q(P):
    __slots__ = ()


CLASSES = (A, B, C, D, P, Q)


class Model:
    """Plain mirror: node -> list of child nodes; and node -> parent."""
    def __init__(self):
        self.ch = {}
        self.par = {}

    def add(self, n):
        self.ch[id(n)] = []
        self.par[id(n)] = None

    def kids(self, n):
        return self.ch[id(n)]

    def parent(self, n):
        return self.par[id(n)]

    def set(self, n, lst):
        old = self.ch[id(n)]
        for c in old:
            if not any(c is k for k in lst):
                self.par[id(c)] = None
        self.ch[id(n)] = list(lst)
        for c in lst:
            self.par[id(c)] = n

    def pre(self, n):
        """descendants, document order"""
        out = []
        for c in self.kids(n):
            out.append(c)
            out.extend(self.pre(c))
        return out

    def ipost(self, n):
        """descendants in the backward iteration order: last child first, node before its children"""
        out = []
        for c in self.kids(n)[::-1]:
            out.append(c)
            out.extend(self.ipost(c))
        return out

    def anc(self, n):
        out = []
        n = self.parent(n)
        while n is not None:
            out.append(n)
            n = self.parent(n)
        return out

    def index(self, n):
        for i, c in enumerate(self.kids(self.parent(n))):
            if c is n:
                return i

    def trail(self, n):
        t = []
        while self.parent(n) is not None:
            t.insert(0, self.index(n))
            n = self.parent(n)
        return t

    def height(self, n):
        return 1 + max(map(self.height, self.kids(n))) if self.kids(n) else 0

    def prune(self, lst, stop):
        """Remove from pre-order lst all descendants of nodes for which stop(node)."""
        out, skip = [], set()
        for n in lst:
            if id(n) in skip or any(id(a) in skip for a in self.anc(n)):
                continue
            out.append(n)
            if stop(n):
                skip.update(id(d) for d in self.pre(n))
        return out


def ids(l):
    return [id(n) for n in l]


def mknode(rng, model, depth=0):
    cls = rng.choice(CLASSES)
    kids = [mknode(rng, model, depth + 1) for _ in range(rng.choice((0, 0, 1, 2, 3)) if depth < 3 else 0)]
    n = cls(*kids, val=rng.randrange(3)) if issubclass(cls, A) else cls(*kids)
    model.add(n)
    model.set(n, kids)
    return n


def shape(model, n):
    return (type(n).__name__, getattr(n, "val", None), tuple(shape(model, c) for c in model.kids(n)))


def edit(rng, mon, root, model, keep):
    nodes = [root] + model.pre(root)
    n = rng.choice(nodes)
    op = rng.choice(("append", "extend", "insert", "setitem", "setslice", "replace", "take", "del", "delslice", "move"))
    k = model.kids(n)
    mon.ev("edits")
    mon.ev("edit " + op)
    if op == "append":
        x = mknode(rng, model, 2)
        n.append(x)
        model.set(n, k + [x])
    elif op == "extend":
        xs = [mknode(rng, model, 2) for _ in range(rng.randrange(4))]
        n.extend(iter(xs) if rng.random() < .5 else xs)
        model.set(n, k + xs)
    elif op == "insert":
        x = mknode(rng, model, 2)
        i = rng.randint(-len(k) - 1, len(k) + 1)
        n.insert(i, x)
        l = list(k)
        l.insert(i, x)
        model.set(n, l)
    elif op == "setitem" and k:
        x = mknode(rng, model, 2)
        i = rng.randrange(-len(k), len(k))
        keep.append(k[i])
        l = list(k)
        l[i] = x
        n[i] = x
        model.set(n, l)
    elif op == "setslice":
        i, j = rng.randint(-3, len(k) + 1), rng.randint(-3, len(k) + 1)
        xs = [mknode(rng, model, 2) for _ in range(rng.randrange(3))]
        keep.extend(k)
        l = list(k)
        l[i:j] = xs
        n[i:j] = iter(xs) if rng.random() < .5 else xs
        model.set(n, l)
    elif op == "replace" and model.parent(n) is not None:
        x = mknode(rng, model, 2)
        p, i = model.parent(n), model.index(n)
        keep.append(n)
        n.replace_with(x)
        l = list(model.kids(p))
        l[i] = x
        model.set(p, l)
    elif op == "take":
        i = rng.randint(-2, len(k))
        j = rng.choice((None, rng.randint(-2, len(k) + 1)))
        l = list(k)
        exp = l[i:j]
        del l[i:j]
        got = n.take(i, j)
        keep.extend(exp)
        mon.check(type(got) is list and ids(got) == ids(exp), "take", "take(%s, %s) returned wrong nodes" % (i, j))
        model.set(n, l)
    elif op == "del" and k:
        i = rng.randrange(-len(k), len(k))
        l = list(k)
        keep.append(l[i])
        del n[i]
        del l[i]
        model.set(n, l)
    elif op == "delslice" and k:
        i, j = rng.randrange(-len(k), len(k)), rng.randrange(0, len(k) + 1)
        l = list(k)
        keep.extend(l)
        del n[i:j]
        del l[i:j]
        model.set(n, l)
    elif op == "move" and model.parent(n) is not None:
        p = model.parent(n)
        own = [n] + model.pre(n)
        targets = [t for t in nodes if not any(t is o for o in own)]
        t = rng.choice(targets)
        p.remove(n)
        model.set(p, [c for c in model.kids(p) if c is not n])
        t.append(n)
        model.set(t, model.kids(t) + [n])


def with_stop(gen, stop):
    out = []
    try:
        n = next(gen)
        while True:
            out.append(n)
            n = gen.send(False) if stop(n) else next(gen)
    except StopIteration:
        return out


def common(model, a, b):
    ca = [a] + model.anc(a)
    for x in [b] + model.anc(b):
        if any(x is y for y in ca):
            return x


def compare(rng, mon, root, model):
    nodes = [root] + model.pre(root)
    ck = mon.check
    sample = nodes if len(nodes) <= 14 else rng.sample(nodes, 14)
    pre_root = [root] + model.pre(root)
    back_root = model.ipost(root)
    for n in nodes:
        ck(ids(n) == ids(model.kids(n)), "children", "children of a node are not as edited")
        p = model.parent(n)
        ck(n.parent is p, "parent", "parent of %r is %r, should be %r" % (n, n.parent, p))
        mon.ev("parent")
    for n in sample:
        anc = model.anc(n)
        desc = model.pre(n)
        ck(bool(n) is True, "bool", "node is not true")
        ck(n.root() is root, "root", "root() wrong")
        ck(n.trail() == model.trail(n), "trail", "trail() %r should be %r" % (n.trail(), model.trail(n)))
        mon.ev("trail")
        ck(ids(n.ancestors()) == ids(anc), "ancestors", "ancestors() wrong")
        ck([(id(p), i) for p, i in n.ancestors_with_index()] == [(id(p), model.index(c)) for p, c in zip(anc, [n] + anc)],
            "ancestors_with_index", "wrong")
        ck(n.depth() == len(anc), "depth", "depth() wrong")
        ck(n.height() == model.height(n), "height", "height() %r, should be %r" % (n.height(), model.height(n)))
        ck(n.is_root() == (n is root), "is_root", "wrong")
        ck(ids(n.descendants()) == ids(desc), "descendants", "descendants() order or set wrong")
        ck(ids(n.descendants(reverse=True)) == ids(model.ipost(n)), "descendants-reverse", "descendants(True) wrong")
        mon.ev("descendants")
        sib = model.kids(model.parent(n)) if anc else [n]
        i = [k for k, s in enumerate(sib) if s is n][0]
        if anc:
            ck(n.is_first() == (i == 0) and n.is_last() == (i == len(sib) - 1), "is_first/last", "wrong")
            ck(n.parent.index(n) == i and n in n.parent, "index", "identity index wrong")
        ck(ids(n.right_siblings()) == ids(sib[i+1:]), "right_siblings", "wrong")
        ck(ids(n.left_siblings()) == ids(sib[:i][::-1]), "left_siblings", "wrong")
        ck(n.right_sibling() is (sib[i+1] if i + 1 < len(sib) else None), "right_sibling", "wrong")
        ck(n.left_sibling() is (sib[i-1] if i else None), "left_sibling", "wrong")
        # forward and backward
        own = {id(n)} | set(ids(desc))
        anc_ids = set(ids(anc))
        pos = [k for k, x in enumerate(pre_root) if x is n][0]
        fwd = [x for x in pre_root[pos+1:] if id(x) not in own]
        if anc:
            bpos = [k for k, x in enumerate(back_root) if x is n][0]
            bwd = [x for x in back_root[bpos+1:] if id(x) not in own]
            # nodes after n in backward order, not own descendants
        else:
            fwd = bwd = []
        ck(ids(n.forward()) == ids(fwd), "forward", "forward() wrong")
        ck(ids(n.backward()) == ids(bwd), "backward", "backward() wrong")
        mon.ev("forward")
        for upto in rng.sample(anc, min(2, len(anc))):
            inside = set(ids(model.pre(upto)))
            ck(ids(n.forward(upto)) == [id(x) for x in fwd if id(x) in inside], "forward-upto", "forward(upto) wrong")
            ck(ids(n.backward(upto)) == [id(x) for x in bwd if id(x) in inside], "backward-upto", "backward(upto) wrong")
        # pruning
        cls = rng.choice(CLASSES + ((B, Q), (C, P)))
        is_ = lambda x: isinstance(x, cls)
        ck(ids(with_stop(n.descendants(), is_)) == ids(model.prune(desc, is_)), "prune-descendants", "send(False) wrong")
        ck(ids(with_stop(n.descendants(True), is_)) == ids(model.prune(model.ipost(n), is_)), "prune-descendants-reverse", "send(False) wrong")
        exp = [x for x in model.prune(desc, is_) if is_(x)]
        ck(ids(n.instances_of(cls)) == ids(exp), "instances_of", "instances_of wrong")
        ck(ids(n.filter(is_)) == ids(exp), "filter", "filter wrong")
        exp = [x for x in model.prune(fwd, is_) if is_(x)]
        ck(ids(Node.filter_descendants(is_, n.forward())) == ids(exp), "filter-forward", "filter_descendants(forward) wrong")
        exp = [x for x in model.prune(bwd, is_) if is_(x)]
        ck(ids(Node.filter_descendants(is_, n.backward())) == ids(exp), "filter-backward", "filter_descendants(backward) wrong")
        mon.ev("pruned")
        # operators
        ref = rng.choice(nodes)
        for what, f in ((cls, is_), (ref, lambda x: type(x) is type(ref) and getattr(x, "val", None) == getattr(ref, "val", None))):
            for op, got, src in (
                ("/", n / what, model.kids(n)), ("//", n // what, desc), ("<<", n << what, anc),
                (">", n > what, fwd), ("<", n < what, bwd),
            ):
                # (python gives a comparison to the right operand first, if that is
                # an instance of a subclass: recorded as a known finding)
                reflected = op in "<>" and what is ref and type(ref) is not type(n) and isinstance(ref, type(n))
                ck(ids(got) == [id(x) for x in src if f(x)], "reflected-comparison" if reflected else "operator " + op, "operator %s gives wrong nodes" % op)
            ck(ids(n ^ what) == [id(x) for x in model.kids(n) if not f(x)], "operator ^", "operator ^ gives wrong nodes")
            mon.ev("operators")
        # pairs
        for m in rng.sample(nodes, min(4, len(nodes))):
            ca = common(model, n, m)
            ck(n.common_ancestor(m) is ca, "common_ancestor", "wrong")
            a, t1, t2 = n.common_ancestor_with_trail(m)
            d = len(model.trail(ca))
            ck(a is ca and t1 == model.trail(n)[d:] and t2 == model.trail(m)[d:], "common_ancestor_with_trail",
                "got %r" % ((a, t1, t2),))
            same = shape(model, n) == shape(model, m)
            ck(n.equals(m) == same, "equals", "equals() is %r, should be %r" % (n.equals(m), same))
            ck((n == m) is (n is m) and (n != m) is (n is not m), "identity", "== is not identity")
            order = model.trail(n) < model.trail(m)
            ck((n.trail() < m.trail()) == order, "trail-order", "trails do not follow document order")
            mon.ev("common_ancestor")
        # copy
        c = n.copy()
        ck(c.parent is None, "copy", "copy has a parent")
        ck(shape_of(c) == shape(model, n), "copy", "copy differs from the original")
        ck(n.equals(c) and c.equals(n), "copy-equals", "copy is not equal to the original")
        ck(not ({id(c)} | set(ids(c.descendants()))) & set(ids(nodes)), "copy-shared", "copy shares nodes with the original")
        ck(all(y.parent is x for x in [c] + list(c.descendants()) for y in x), "copy-parent", "parents in copy wrong")
        c2 = n.copy(with_children=False)
        ck(type(c2) is type(n) and len(c2) == 0, "copy-shallow", "copy without children wrong")
        mon.ev("copy")
    # a different tree has no common ancestor
    other = P(Q())
    n = rng.choice(nodes)
    ck(n.common_ancestor(other[0]) is None, "unrelated", "unrelated nodes have a common ancestor")
    ck(n.common_ancestor_with_trail(other[0]) == (None, None, None), "unrelated", "unrelated nodes have a common ancestor")
    # the tree can be displayed: one line per node
    f = io.StringIO()
    root.dump(f, rng.choice(("ascii", "round", "square", "double", "thick", "flat", None)))
    lines = f.getvalue().splitlines()
    ck(len(lines) == len(nodes), "dump", "dump() does not show every node once")
    for line, x in zip(lines, nodes):
        ck(line.endswith(repr(x)), "dump", "dump() shows other nodes, or in another order: %r, should be %r" % (line, repr(x)))
    listings(rng, mon, rng.choice(nodes), model)


def printed(f):
    """Return the lines printed by calling f."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue().splitlines()


def listings(rng, mon, n, model):
    """The ancestry and children of a node as they are shown."""
    ck = mon.check
    path = model.anc(n)[::-1] + [n]
    lines = printed(lambda: n.pwd)
    ck(len(lines) == len(path) and all(l.endswith(repr(x)) for l, x in zip(lines, path)), "pwd", "pwd does not show the ancestors: %r" % lines)
    kids = list(enumerate(model.kids(n)))
    def ck_list(lines, expected, what):
        got = [l.split(None, 1) for l in lines]
        ck(got == [[str(i), repr(x)] for i, x in expected], "ls", "%s shows %r instead of %r" % (what, got, expected))
    ck_list(repr(n.ls).splitlines(), kids, "ls")
    cls = rng.choice(CLASSES)
    ck_list(printed(lambda: n.ls / cls), [(i, x) for i, x in kids if isinstance(x, cls)], "ls / class")
    ck_list(printed(lambda: n.ls ^ cls), [(i, x) for i, x in kids if not isinstance(x, cls)], "ls ^ class")
    if kids:
        i = rng.randrange(len(kids))
        ck_list(printed(lambda: n.ls[i]), [kids[i]], "ls[%d]" % i)
    s = slice(*(rng.choice((None, rng.randint(-len(kids) - 1, len(kids) + 1))) for _ in "ab"), rng.choice((None, 1, 2)))
    ck_list(printed(lambda: n.ls[s]), kids[s], "ls[%r]" % s)
    mon.ev("listed")


def shape_of(n):
    return (type(n).__name__, getattr(n, "val", None), tuple(shape_of(c) for c in n))


def case(rng, mon):
    model = Model()
    keep = []
    root = mknode(rng, model, 0)
    for _ in range(rng.randrange(12)):
        edit(rng, mon, root, model, keep)
        if rng.random() < .2:
            compare(rng, mon, root, model)
    nodes = [root] + model.pre(root)
    if len(nodes) > 45:
        # keep the quadratic oracle cheap
        for k in range(len(root)):
            if len([root] + model.pre(root)) > 45:
                keep.append(root[-1])
                del root[-1]
                model.set(root, model.kids(root)[:-1])
    compare(rng, mon, root, model)
    s = shape(model, root)
    if len(nodes) >= 4 and model.height(root) >= 2:
        mon.nontrivial(s)
    mon.sample(s)
    # removed nodes: dropping the parent explicitly
    if keep:
        x = rng.choice(keep)
        x.parent = None
        mon.check(x.parent is None and x.is_root(), "unset-parent", "parent could not be unset")
        x.parent = root
        mon.check(x.parent is root, "set-parent", "parent could not be set")
        del x.parent
        mon.check(x.parent is None, "unset-parent", "parent could not be deleted")
    # no circular references: the tree is freed when the last reference goes
    gc.disable()
    try:
        refs = [weakref.ref(n) for n in nodes]
        del nodes, model, keep
        x = n = None
        root = None
        mon.check(not any(r() is not None for r in refs), "freed", "node tree has circular references")
        mon.ev("freed", len(refs))
    finally:
        gc.enable()


STREAMS = {"history": Stream(case, 1600, 40000)}
