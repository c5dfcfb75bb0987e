"""C02: ranges of a node tree vs brute force over document order."""
from vt.core import Stream
from vt.checks.c01 import printed, mknode, Model, ids, with_stop, CLASSES, shape, shape_of
from quickly.node import Node, Range

PROPERTY = "C02"
RULE = ("Random trees; ranges from a random start and/or end node (with and without the root as ancestor, also reversed "
        "or nested ends); all iteration and containment results are compared with a slice of the document order, then "
        "random item edits through the range are made while iterating and compared with a plain model. Non-trivial: "
        "range with at least three nodes that is not the full tree; distinct by tree shape and boundaries.")
ASSUMPTIONS = ["item edits through a range at the current iteration level, as documented"]
NEED = ("nodes", "contains", "goto", "extract", "forward", "backward", "range edits", "edit-during-iteration", "empty range", "partial", "in_range while iterating", "edit before the current node", "edit outside the range", "steps", "replaced", "start boundary deleted", "level filled", "level emptied", "filled after the current node", "listed")


class Ref:
    """Reference for a range: computed from plain preorder lists."""
    def __init__(self, model, ancestor, start, end):
        self.model = model
        self.ancestor, self.start, self.end = ancestor, start, end
        d = len(model.trail(ancestor))
        self.trail = {id(n): model.trail(n)[d:] for n in [ancestor] + model.pre(ancestor)}
        pre = model.pre(ancestor)
        pos = {id(n): i for i, n in enumerate([ancestor] + pre)}
        lo = pos[id(start)] if start is not None and start is not ancestor else 1
        hi = pos[id(end)] if end is not None else len(pre)
        self.empty = lo > hi
        self.nodes = ([ancestor] + pre)[lo:hi+1]
        inside = set(ids(self.nodes))
        self.inside = inside
        def touches(n):
            return id(n) in inside or any(id(x) in inside for x in model.pre(n))
        self.visible = [n for n in pre if touches(n)]
        vis = set(ids(self.visible))
        self.vis = vis
        self.visible_back = [n for n in model.ipost(ancestor) if id(n) in vis]
        self.complete = {id(n) for n in [ancestor] + pre
                         if id(n) in inside and (n is end or all(id(x) in inside for x in model.pre(n)))}
        if all(id(n) in inside for n in pre) and end is not ancestor:
            self.complete.add(id(ancestor))


def pick_range(rng, model, root):
    nodes = [root] + model.pre(root)
    kind = rng.choice(("both", "both", "both", "start", "end", "ancestor", "trails"))
    a, b = rng.choice(nodes), rng.choice(nodes)
    if kind == "both":
        if nodes.index(a) > nodes.index(b) and rng.random() < .75:
            a, b = b, a
        from_root = rng.random() < .5
        r = a.range(b, from_root) if rng.random() < .5 else Range.from_nodes(a, b, from_root)
        if from_root:
            anc = root
        else:
            ca = [a] + model.anc(a)
            anc = next(x for x in [b] + model.anc(b) if any(x is y for y in ca))
        return r, Ref(model, anc, a, b)
    if kind == "start":
        return Range.from_nodes(a, None, rng.random() < .5), Ref(model, root, a, None)
    if kind == "end":
        return Range.from_nodes(None, b), Ref(model, root, None, b)
    if kind == "ancestor":
        return Range(a), Ref(model, a, None, None)
    # explicit trails from any ancestor
    sub = model.pre(a)
    s = rng.choice(sub) if sub and rng.random() < .7 else None
    e = rng.choice(sub) if sub and rng.random() < .7 else None
    d = len(model.trail(a))
    return Range(a, model.trail(s)[d:] if s is not None else None, model.trail(e)[d:] if e is not None else None), Ref(model, a, s, e)


def surely_inside(model, ref, n):
    return id(n) in ref.inside and n is not ref.end and not any(n is x for x in (model.anc(ref.end) if ref.end is not None else ()))


def partial(model, ref, n):
    """True if a part of the node is really outside the range.

    An ancestor of the start node only counts if there is something else in it
    before the start node.

    """
    if n is ref.ancestor:
        return False
    if ref.start is not None and any(n is x for x in model.anc(ref.start)):
        above = {id(n)} | set(ids(model.anc(n)))
        down = [x for x in [ref.start] + list(model.anc(ref.start)) if id(x) not in above]
        if any(model.index(x) for x in down):
            return True
        return any(id(x) not in ref.inside and x is not n and not any(x is y for y in down) for x in model.pre(n))
    return any(id(x) not in ref.inside for x in model.pre(n))


def listed(rng, mon, model, ref, r, n, kids, ctx):
    """What is shown of the current level and node."""
    ck = mon.check
    path = [n]
    while path[0] is not ref.ancestor:
        path.insert(0, model.parent(path[0]))
    repr(r)
    lines = printed(lambda: r.pwd)
    ck(len(lines) == len(path) and all(l.endswith(repr(x)) for l, x in zip(lines, path)), "pwd", "pwd shows %r instead of %r" % (lines, path), **ctx)
    current = None
    if kids:
        r.enter()
        k = rng.randrange(len(kids) + 1)
        for current in kids[:k]:
            next(r)
        if k:
            r.node      # the iteration is active
    lines = printed(lambda: r.ls)
    level = n if kids else (model.parent(n) if n is not ref.ancestor else n)
    ck(lines[0] == repr(level), "ls", "ls shows %r instead of %r" % (lines[0], level), **ctx)
    if kids:
        rows = [l.strip() for l in lines[1:] if not l.strip().startswith(":")]
        ck(len(rows) == len(kids), "ls", "ls shows %r, should be %r" % (rows, kids), **ctx)
        for row, x in zip(rows, kids):
            ck(row.startswith("%d %r" % (model.index(x), x)), "ls", "ls shows %r, should be %r" % (row, x), **ctx)
            ck(row.endswith("<----") == (x is current), "ls", "ls: %r, current node is %r" % (row, current), **ctx)
            if partial(model, ref, x):
                ck("(partly)" in row, "ls", "ls does not show that a node is partly in range: %r" % row, **ctx)
            elif surely_inside(model, ref, x):
                ck("(partly)" not in row, "ls", "ls shows that a node is partly in range: %r" % row, **ctx)
        mon.ev("listed")


def queries(rng, mon, model, root, r, ref):
    ck = mon.check
    ctx = dict(tree=shape(model, root), start=model.trail(ref.start) if ref.start is not None else None,
               end=model.trail(ref.end) if ref.end is not None else None, ancestor=model.trail(ref.ancestor))
    ck(r.ancestor() is ref.ancestor, "ancestor", "wrong ancestor", **ctx)
    ck(bool(r) == (not ref.empty), "empty", "range is %s, should be %s" % (bool(r), not ref.empty), **ctx)
    ck(ids(r.nodes()) == ids(ref.nodes), "nodes", "nodes() differs from the slice of the document order", **ctx)
    mon.ev("nodes")
    if ref.start is not None:
        ck(r.start_node() is ref.start, "start_node", "wrong", **ctx)
    if ref.end is not None:
        ck(r.end_node() is ref.end, "end_node", "wrong", **ctx)
    if ref.empty:
        mon.ev("empty range")
        return
    cls = rng.choice(CLASSES)
    is_ = lambda n: isinstance(n, cls)
    exp = model.prune(ref.nodes, is_)
    ck(ids(with_stop(r.nodes(), is_)) == ids(exp), "nodes-prune", "nodes() with send(False)", **ctx)
    r.reset()
    ck(ids(r.descendants()) == ids(ref.visible), "descendants", "descendants() wrong", **ctx)
    r.reset()
    ck(ids(r // cls) == [id(n) for n in ref.visible if is_(n)], "operator //", "wrong", **ctx)
    r.reset()
    ck(ids(r.descendants(True)) == ids(ref.visible_back), "descendants-reverse", "descendants(True) wrong", **ctx)
    r.reset()
    ck(ids(with_stop(r.descendants(), is_)) == ids(model.prune(ref.visible, is_)), "descendants-prune", "wrong", **ctx)
    r.reset()
    ck(ids(r.instances_of(cls)) == [id(n) for n in model.prune(ref.visible, is_) if is_(n)], "instances_of", "wrong", **ctx)
    for n in [root] + model.pre(root):
        known = id(n) in ref.trail
        # an ancestor of the start node is left out (documentation is ambiguous
        # for start nodes that are the very first descendant)
        if not (ref.start is not None and any(n is x for x in model.anc(ref.start))) or n is ref.ancestor and not ref.trail[id(ref.start)].count(0) == len(ref.trail[id(ref.start)]):
            got, want = n in r, id(n) in ref.complete
            if n is ref.ancestor and ref.end is n:
                pass
            else:
                ck(got == want, "contains", "node in range: %s, should be %s" % (got, want), node=model.trail(n), **ctx)
                mon.ev("contains")
        vis = id(n) in ref.vis or n is ref.ancestor
        ck((r & n) == vis, "intersects", "range & node: %s, should be %s" % (r & n, vis), node=model.trail(n), **ctx)
        ok = r.goto(n)
        ck(ok == vis, "goto", "goto: %s, should be %s" % (ok, vis), node=model.trail(n), **ctx)
        mon.ev("goto")
        if not ok:
            continue
        t = ref.trail[id(n)]
        ck(r.node is n, "goto-node", "current node is not the goto node", **ctx)
        ck(r.trail() == t, "trail", "trail() %r should be %r" % (r.trail(), t), **ctx)
        ck(r.depth() == max(0, len(t) - 1), "depth", "depth() wrong", **ctx)
        ck(r.index == (t[-1] if t else -1), "index", "index wrong", **ctx)
        if surely_inside(model, ref, n):
            ck(r.in_range(), "in_range", "in_range() is False for a node completely in range", node=model.trail(n), **ctx)
        elif partial(model, ref, n):
            ck(not r.in_range(), "in_range", "in_range() is True for a node partially in range", node=model.trail(n), **ctx)
            mon.ev("partial")
        # children in range
        kids = [c for c in model.kids(n) if id(c) in ref.vis]
        ck(ids(r.children()) == ids(kids), "children", "children() wrong", node=model.trail(n), **ctx)
        if r.node is not n:
            r.goto(n)
        ck(ids(r.children(True)) == ids(kids[::-1]), "children-reverse", "children(True) wrong", node=model.trail(n), **ctx)
        r.goto(n)
        ck(ids(r ^ cls) == [id(c) for c in kids if not is_(c)], "operator ^", "wrong", **ctx)
        if rng.random() < .2:
            r.goto(n)
            listed(rng, mon, model, ref, r, n, kids, ctx)
        # enter and leave
        r.goto(n)
        if kids:
            d = r.enter()
            ck(r.node is n, "enter", "entering changes the current node", **ctx)
            ck(r.start() == model.index(kids[0]) and r.end() == model.index(kids[-1]), "start/end", "wrong", **ctx)
            ck(ids(r) == ids(kids), "iter", "iteration after enter() wrong", **ctx)
            r.goto(n)
            r.enter()
            for c in r:
                # the same while iterating
                if partial(model, ref, c):
                    ck(not r.in_range(), "in_range-iter", "in_range() is True for a node partially in range", node=model.trail(c), **ctx)
                elif surely_inside(model, ref, c):
                    ck(r.in_range(), "in_range-iter", "in_range() is False for a node completely in range", node=model.trail(c), **ctx)
                mon.ev("in_range while iterating")
            back = r.leave()
            if n is not ref.ancestor:
                ck(back == d and r.node is n, "leave", "leave() does not return to the node", **ctx)
        r.goto(n)
        sub = {id(n)} | set(ids(model.pre(n)))
        desc = [x for x in ref.visible if id(x) in sub and x is not n]
        ck(ids(r.descendants()) == ids(desc), "descendants-from", "descendants() from a node wrong", **ctx)
        # from_here and extract_tree
        r.goto(n)
        r2 = r.from_here()
        ck(r2.ancestor() is n and ids(r2.descendants()) == ids(desc), "from_here", "from_here() has other nodes", node=model.trail(n), **ctx)
        ck(r.node is n, "from_here", "from_here() moves the range", **ctx)
        tree = r.extract_tree()
        want = restrict(model, n, ref.vis)
        ck(shape_of(tree) == want, "extract_tree", "extract_tree() gives another tree", got=shape_of(tree), want=want, **ctx)
        ck(not ({id(tree)} | set(ids(tree.descendants()))) & set(ids([root] + model.pre(root))), "extract-shared", "shares nodes", **ctx)
        mon.ev("extract")
        # ancestors
        r.goto(n)
        anc = [x for x in model.anc(n) if id(x) in ref.trail]
        ck(ids(r.ancestors()) == ids(anc), "ancestors", "ancestors() wrong", node=model.trail(n), **ctx)
        if n is not ref.ancestor:
            r.goto(n)
            i = ids(ref.visible).index(id(n))
            fwd = [x for x in ref.visible[i+1:] if id(x) not in sub]
            ck(ids(r.forward()) == ids(fwd), "forward", "forward() wrong", node=model.trail(n), **ctx)
            r.goto(n)
            i = ids(ref.visible_back).index(id(n))
            bwd = [x for x in ref.visible_back[i+1:] if id(x) not in sub]
            ck(ids(r.backward()) == ids(bwd), "backward", "backward() wrong", node=model.trail(n), **ctx)
            upto = rng.choice(anc)
            inside = set(ids(model.pre(upto)))
            r.goto(n)
            ck(ids(r.forward(upto)) == [id(x) for x in fwd if id(x) in inside], "forward-upto", "forward(upto) wrong", **ctx)
            r.goto(n)
            ck(ids(r.backward(upto)) == [id(x) for x in bwd if id(x) in inside], "backward-upto", "backward(upto) wrong", **ctx)
            r.goto(n)
            ck(ids(r > cls) == [id(x) for x in fwd if is_(x)], "operator >", "wrong", **ctx)
            mon.ev("forward")
            mon.ev("backward")
    r.reset()
    if len(ref.nodes) >= 3 and len(ref.nodes) < len(model.pre(root)):
        mon.nontrivial(ctx["tree"], ctx["start"], ctx["end"])
    mon.sample(ctx)
    c = r.copy()
    ck(c is not r and ids(c.nodes()) == ids(ref.nodes), "copy", "copy() has other nodes", **ctx)


def restrict(model, n, vis):
    s = shape(model, n)
    return s[:2] + (tuple(restrict(model, c, vis) for c in model.kids(n) if id(c) in vis),)


def case_queries(rng, mon):
    model = Model()
    root = mknode(rng, model, 0)
    while len(model.kids(root)) > 1 and len(model.pre(root)) > 22:
        del root[-1]
        model.set(root, model.kids(root)[:-1])
    for _ in range(4):
        r, ref = pick_range(rng, model, root)
        queries(rng, mon, model, root, r, ref)
    other = mknode(rng, Model(), 2)
    r = Range(root)
    mon.check(other not in r and not (r & other) and not r.goto(other), "unrelated", "a node of another tree is in range")
    for a, b in ((root, other), (other, root)):
        try:
            Range.from_nodes(a, b)
        except ValueError:
            pass
        else:
            mon.fail("unrelated", "range from nodes of different trees")
    try:
        Range.from_nodes()
    except ValueError:
        pass
    else:
        mon.fail("no-nodes", "range from no nodes")


def case_edits(rng, mon):
    """Item edits through a range, during iteration of a level."""
    model = Model()
    root = mknode(rng, model, 0)
    while len(model.kids(root)) < 3:
        x = mknode(rng, model, 2)
        root.append(x)
        model.set(root, model.kids(root) + [x])
    # a range
    sub = model.pre(root)
    s = rng.choice(sub) if rng.random() < .5 else None
    e = rng.choice(sub) if rng.random() < .6 else None
    r = Range(root, model.trail(s) if s is not None else None, model.trail(e) if e is not None else None)
    ref = Ref(model, root, s, e)
    if ref.empty:
        mon.ev("empty range")
        return
    # enter a random visible node with children in range
    cands = [root] + [n for n in ref.visible if any(id(c) in ref.vis for c in model.kids(n))]
    lvl = rng.choice(cands)
    if lvl is not root:
        r.goto(lvl)
        r.enter()
    ctx = dict(tree=shape(model, root), start=s is not None and model.trail(s), end=e is not None and model.trail(e), level=model.trail(lvl))
    log = []
    keep = []
    # the siblings of this level, tagged in/out of range
    before = list(model.kids(lvl))
    level_nodes = list(before)              # current list, identity
    vis = set(ids(c for c in before if id(c) in ref.vis))
    start_child = before.index(next(c for c in before if id(c) in vis))
    on_start = s is not None and any(lvl is a for a in model.anc(s))
    on_end = e is not None and any(lvl is a for a in model.anc(e))
    protected = before[start_child] if on_start else None
    has_start = s is not None and any(lvl is a for a in model.anc(s))
    has_end = e is not None and any(lvl is a for a in model.anc(e))
    # outside: everything not in the visible set (of the whole tree)
    outside = {id(n) for n in sub if id(n) not in ref.inside}
    inside = set(ref.inside)
    got = []
    last = None
    cur = None
    for n in r:
        mon.ev("edit-during-iteration")
        cur = n
        i = [k for k, x in enumerate(level_nodes) if x is n]
        mon.check(bool(i), "yielded-removed", "iteration yields a node that is no longer there", log=log, **ctx)
        i = i[0]
        mon.check(id(n) in vis, "yielded-outside", "iteration yields a node outside the range", log=log, **ctx)
        mon.check(r.index == i and r.node is n, "index", "index %r, should be %r" % (r.index, i), log=log, **ctx)
        expected_next = next((x for x in level_nodes[last_index(level_nodes, last) + 1:] if id(x) in vis), None)
        mon.check(expected_next is n, "skipped", "iteration skipped or repeated a node", log=log, got=got, **ctx)
        got.append(i)
        last = n
        if rng.random() < .6:
            op = rng.choice(("delcur", "delcur", "repcur", "repslice", "insert_after", "insert_before", "delafter", "before", "before", "outside"))
            if op == "delcur":
                if n is protected:
                    # the boundary moves to the next node
                    protected = next((x for x in level_nodes[i+1:] if id(x) in vis), None)
                    if protected is None:
                        protected = n
                        continue
                    has_start = i > 0
                    mon.ev("start boundary deleted")
                before_n = level_nodes[i-1] if i else None
                keep.append(n)
                del r[i]
                del level_nodes[i]
                vis.discard(id(n))
                inside -= {id(n)} | set(ids(model.pre(n)))
                last = before_n
            elif op == "repcur":
                x = mknode(rng, model, 2)
                keep.append(n)
                if rng.random() < .5:
                    r.node = x
                else:
                    r[i] = x
                level_nodes[i] = x
                if n is protected:
                    protected = x
                vis.discard(id(n))
                vis.add(id(x))
                last = x
            elif op == "repslice" and n is not protected:
                xs = [mknode(rng, model, 2) for _ in range(rng.randint(1, 3))]
                keep.append(n)
                r[i:i+1] = xs
                level_nodes[i:i+1] = xs
                vis.discard(id(n))
                vis.update(ids(xs))
                last = xs[-1]
            elif op == "insert_after":
                x = mknode(rng, model, 2)
                r[i+1:i+1] = [x]
                level_nodes.insert(i + 1, x)
                nxt = level_nodes[i+2] if i + 2 < len(level_nodes) else None
                if nxt is not None and id(nxt) in vis or not on_end and nxt is None:
                    vis.add(id(x))
            elif op == "insert_before" and n is not protected:
                x = mknode(rng, model, 2)
                r[i:i] = [x]
                level_nodes.insert(i, x)
                vis.add(id(x))
            elif op == "delafter" and i + 1 < len(level_nodes):
                j = rng.randint(i + 1, len(level_nodes))
                gone = level_nodes[i+1:j]
                keep.extend(gone)
                if rng.random() < .5:
                    del r[i+1:j]
                else:
                    r[i+1:j] = ()
                del level_nodes[i+1:j]
                vis -= set(ids(gone))
            elif op == "before":
                # delete or replace nodes before the current one
                lo = start_index(level_nodes, vis, protected)
                if lo >= i:
                    continue
                a = rng.randint(lo, i - 1)
                b = rng.randint(a + 1, i)
                xs = [mknode(rng, model, 2) for _ in range(rng.choice((0, 0, 1, 2, 3)))]
                gone = level_nodes[a:b]
                keep.extend(gone)
                for x in gone:
                    inside -= {id(x)} | set(ids(model.pre(x)))
                if not xs and rng.random() < .5:
                    del r[a:b]
                else:
                    r[a:b] = xs
                level_nodes[a:b] = xs
                vis -= set(ids(gone))
                vis.update(ids(xs))
                mon.ev("edit before the current node")
                mon.check(r.node is n and r.index == i - len(gone) + len(xs), "current", "the current node changed", log=log, op=(a, b, len(xs)), **ctx)
            elif op == "outside":
                # edit siblings that are not in the range
                shown = [k for k, x in enumerate(level_nodes) if id(x) in vis]
                lo, hi = shown[0], shown[-1] + 1
                parts = [(0, lo)] if lo or has_start else []
                if hi < len(level_nodes) or has_end:
                    parts.append((hi, len(level_nodes)))
                if not parts:
                    continue
                part = rng.choice(parts)
                a = rng.randint(*part)
                b = rng.randint(a, part[1])
                xs = [mknode(rng, model, 2) for _ in range(rng.choice((0, 1, 2, 3)))]
                keep.extend(level_nodes[a:b])
                r[a:b] = xs
                level_nodes[a:b] = xs
                for x in xs:
                    outside |= {id(x)} | set(ids(model.pre(x)))
                if b <= i:
                    i += len(xs) - (b - a)
                mon.ev("edit outside the range")
                mon.check(r.node is n and r.index == i, "current", "the current node changed", log=log, op=(a, b, len(xs)), **ctx)
            else:
                continue
            log.append((op, i))
            mon.ev("range edits")
            mon.check(ids(lvl) == ids(level_nodes), "tree-edited", "the tree was not edited as requested", log=log, **ctx)
            mon.check(all(c.parent is lvl for c in lvl), "parent", "parent not set by a range edit", log=log, **ctx)
    rest = level_nodes[last_index(level_nodes, last) + 1:]
    mon.check(not any(id(x) in vis for x in rest), "stopped-early", "iteration stopped too early", log=log, **ctx)
    # the boundaries remain valid for a fresh range with the same boundaries
    if level_nodes:
        r2 = r.copy()
        seen = set(ids(r2.descendants()))
        surviving = set(ids(root.descendants()))
        bad = [n.trail() for n in root.descendants() if id(n) in outside and id(n) in seen
               and not any(id(d) in inside for d in n.descendants()) and not any(n is a for a in model.anc(lvl) + [lvl])]
        mon.check(not bad, "outside-in", "nodes outside the range became part of it", nodes=bad, log=log, trails=(r.start_trail, r.end_trail), **ctx)
        lost = [n.trail() for n in root.descendants() if id(n) in inside and id(n) not in seen]
        mon.check(not lost, "inside-lost", "nodes in the range fell out of it", nodes=lost, log=log, trails=(r.start_trail, r.end_trail), **ctx)
        mon.ev("boundary recheck")
        # iterate this level again
        level_seen = []
        if lvl is root:
            r.reset()
        else:
            r.leave()
            r.enter()
        level_seen = ids(r)
        mon.check(level_seen == [id(x) for x in level_nodes if id(x) in vis], "second-iteration",
            "a second iteration yields other nodes", log=log, **ctx)
    if log:
        mon.nontrivial(ctx["tree"], ctx["start"], ctx["end"], tuple(log))
        mon.sample(dict(ctx, log=log))


def start_index(level_nodes, vis, protected):
    """The first index in range that may be removed."""
    i = next(k for k, x in enumerate(level_nodes) if id(x) in vis)
    return i + (level_nodes[i] is protected)


def last_index(lst, node):
    if node is None:
        return -1
    return next(k for k, x in enumerate(lst) if x is node)


def case_fill(rng, mon):
    """Nodes are removed from and added to a level that is completely in the range, or becomes empty."""
    model = Model()
    root = mknode(rng, model, rng.choice((0, 0, 2)))
    s = e = None
    sub = model.pre(root)
    if sub and rng.random() < .7:
        s = rng.choice(sub) if rng.random() < .6 else None
        e = rng.choice(sub) if rng.random() < .6 else None
    r = Range(root, model.trail(s) if s is not None else None, model.trail(e) if e is not None else None)
    ref = Ref(model, root, s, e)
    if ref.empty:
        return
    not_lvl = set(ids(model.anc(s))) if s is not None else set()
    if e is not None:
        not_lvl |= {id(e)} | set(ids(model.anc(e)))
    cands = [n for n in [root] + [n for n in sub if id(n) in ref.inside] if id(n) not in not_lvl]
    if not cands:
        return
    empty = [n for n in cands if not model.kids(n)]
    lvl = rng.choice(empty if empty and rng.random() < .6 else cands)
    ctx = dict(tree=shape(model, root), start=s is not None and model.trail(s), end=e is not None and model.trail(e), level=model.trail(lvl))
    if lvl is not root:
        r.goto(lvl)
        r.enter()
    def restart():
        r.reset() if lvl is root else (r.leave(), r.enter())
    now = list(model.kids(lvl))
    keep, log = [now[:]], []
    cur = None      # the index of the current node
    for step in range(rng.randint(1, 8)):
        op = rng.choice(("edit", "edit", "edit", "next", "rest", "rest", "restart", "reversed", "index"))
        if op == "edit":
            a = rng.randint(0, len(now))
            b = rng.choice((a, a, len(now), rng.randint(a, len(now))))
            if rng.random() < .3:
                a, b = 0, len(now)
            if cur is not None and cur < a and rng.random() < .3:
                a = cur + 1     # the rest
            new = [mknode(rng, model, 2) for i in range(rng.choice((0, 1, 1, 2)))]
            log.append((a, b, len(new)))
            if not new and rng.random() < .5:
                del r[a:b]
            else:
                r[a:b] = new
            keep.append(now[a:b])
            now[a:b] = new
            model.set(lvl, list(now))
            mon.check(ids(lvl) == ids(now), "tree-edited", "the tree was not edited as requested", log=log, **ctx)
            if not now:
                cur = None
                mon.ev("level emptied")
            elif cur is not None and cur >= a:
                # if the current node is removed, iteration continues after the change
                cur = cur + len(new) - (b - a) if cur >= b else a + len(new) - 1
                if cur < 0:
                    cur = None
            continue
        log.append(op)
        if op == "next":
            want = 0 if cur is None else cur + 1
            mon.check(next(r, None) is (now[want] if want < len(now) else None), "filled-next", "next() gives another node", log=log, **ctx)
            if want < len(now):
                cur = want
        elif op == "rest":
            mon.check(ids(r) == ids(now[0 if cur is None else cur + 1:]), "filled-rest", "iteration continues with other nodes", log=log, **ctx)
            if cur is None and now:
                mon.ev("level filled")
            elif now:
                mon.ev("filled after the current node")
            cur = len(now) - 1 if now else None
        elif op == "reversed":
            mon.check(ids(r.reversed()) == ids(now[:cur][::-1]), "filled-reversed", "iterating backward gives other nodes", log=log, **ctx)
            if now:
                cur = 0
        elif op == "index" and now:
            cur = rng.randrange(len(now))
            r.index = cur
            mon.check(r.node is now[cur], "index", "another node at the index", log=log, **ctx)
        elif op == "restart":
            r.reset() if lvl is root else (r.leave(), r.enter())
            cur = None
    new = Ref(model, root, s, e)
    r.reset()
    mon.check(ids(r.descendants()) == ids(new.visible), "filled-descendants", "descendants() gives other nodes afterwards", log=log, trails=(r.start_trail, r.end_trail), **ctx)
    mon.check(ids(r.copy().nodes()) == ids(new.nodes), "filled-nodes", "nodes() gives other nodes afterwards", log=log, trails=(r.start_trail, r.end_trail), **ctx)
    mon.nontrivial(ctx["tree"], ctx["start"], ctx["end"], ctx["level"], tuple(log))


def case_walk(rng, mon):
    """Navigate step by step; every step is compared with a plain cursor."""
    model = Model()
    root = mknode(rng, model, 0)
    while len(model.kids(root)) < 2:
        x = mknode(rng, model, 1)
        root.append(x)
        model.set(root, model.kids(root) + [x])
    keep = []
    r, ref = pick_range(rng, model, root)
    while ref.empty:
        r, ref = pick_range(rng, model, root)
    anc = ref.ancestor
    levels = [[anc, None]]
    log = []
    ctx = dict(tree=shape(model, root), start=model.trail(ref.start) if ref.start is not None else None,
               end=model.trail(ref.end) if ref.end is not None else None, ancestor=model.trail(anc))
    ck = lambda ok, key, msg, **info: mon.check(ok, key, msg, log=log, **info, **ctx)
    kids = lambda n: [k for k, c in enumerate(model.kids(n)) if id(c) in ref.vis]
    for step in range(rng.randint(4, 30)):
        n, i = levels[-1]
        shown = kids(n)
        op = rng.choice(("next", "next", "next", "enter", "enter", "leave", "leave", "index", "badindex", "goto", "reset", "back",
                         "children", "item", "step", "replace", "replaceitem", "op"))
        log.append(op)
        if op == "next":
            want = shown[0] if i is None and shown else None
            if i is not None:
                want = next((k for k in shown if k > i), None)
            got = next(r, None)
            ck(got is (model.kids(n)[want] if want is not None else None), "next", "next(range) gives another node")
            if want is not None:
                levels[-1][1] = want
        elif op == "back":
            want = [k for k in shown[::-1] if i is None or k < i]
            it = r.reversed()
            for k in want[:rng.randint(0, len(want) + 1)]:
                ck(next(it, None) is model.kids(n)[k], "reversed", "reversed() gives another node")
                levels[-1][1] = k
        elif op == "enter":
            if i is not None:
                levels.append([model.kids(n)[i], None])
            ck(r.enter() == len(levels) - 1, "enter", "enter() returns another depth")
        elif op == "leave":
            d = len(levels) - 1
            if d:
                levels.pop()
            else:
                levels[0][1] = None
            ck(r.leave() == d, "leave", "leave() returns another depth")
        elif op == "index" and shown:
            levels[-1][1] = rng.choice(shown)
            r.index = levels[-1][1]
        elif op == "badindex":
            bad = rng.choice([k for k in range(-2, len(model.kids(n)) + 2) if k not in shown])
            try:
                r.index = bad
            except ValueError:
                pass
            else:
                ck(False, "index-outside", "an index outside the range is accepted", index=bad)
        elif op == "goto":
            t = rng.choice([anc] + ref.visible)
            ck(r.goto(t), "goto", "goto fails")
            levels = [[anc, None]]
            for k in ref.trail[id(t)]:
                if levels[-1][1] is not None:
                    levels.append([model.kids(levels[-1][0])[levels[-1][1]], None])
                levels[-1][1] = k
        elif op == "reset":
            r.reset()
            levels = [[anc, None]]
        elif op in ("children", "op"):
            # exhausting the children returns to the current node
            cur = n if i is None else model.kids(n)[i]
            cls = rng.choice(CLASSES)
            if op == "children":
                got, want = r.children(), [model.kids(cur)[k] for k in kids(cur)]
            else:
                got, want = r / cls, [model.kids(cur)[k] for k in kids(cur) if isinstance(model.kids(cur)[k], cls)]
            ck(ids(got) == ids(want), "children", "the children differ", op=op)
            if i is None:
                if len(levels) > 1:
                    levels.pop()
                else:
                    levels[0][1] = None
        elif op == "item":
            all_ = model.kids(n)
            for k in range(-len(all_), len(all_)):
                ck(r[k] is all_[k], "item", "range[index] is another node", index=k)
            a, b = rng.randint(-3, 4), rng.randint(-3, 4)
            ck(ids(r[a:b]) == ids(all_[a:b]) and ids(r[a::2]) == ids(all_[a::2]), "slice", "range[slice] has other nodes", slice=(a, b))
        elif op == "step":
            try:
                if rng.random() < .5:
                    r[::2] = [mknode(rng, model, 2) for k in range(len(model.kids(n)[::2]))]
                else:
                    del r[::-1]
            except ValueError:
                pass
            else:
                ck(False, "slice-step", "a slice with a step is accepted")
        elif op in ("replace", "replaceitem"):
            if rng.random() < .6:
                log.pop()
                continue
            if op == "replaceitem":
                if not shown:
                    continue
                k = rng.choice(shown)
            elif i is None and len(levels) == 1:
                try:
                    r.node = mknode(rng, model, 2)
                except ValueError:
                    pass
                else:
                    ck(False, "replace-ancestor", "the ancestor can be replaced")
                continue
            elif i is None:
                levels.pop()
                n, k = levels[-1]
            else:
                k = i
            old, new = model.kids(n)[k], mknode(rng, model, 2)
            keep.append(old)
            sub = [old] + model.pre(old)
            start = new if any(ref.start is x for x in sub) else ref.start
            end = new if any(ref.end is x for x in sub) else ref.end
            if op == "replace":
                r.node = new
            else:
                r[k] = new
            model.set(n, model.kids(n)[:k] + [new] + model.kids(n)[k+1:])
            ref = Ref(model, anc, start, end)
            ck(ids(n) == ids(model.kids(n)) and new.parent is n, "replace", "the node is not replaced in its parent")
            mon.ev("replaced")
        mon.ev("steps")
        # observable state
        n, i = levels[-1]
        cur = n if i is None else model.kids(n)[i]
        ck(r.node is cur, "node", "the current node is another node")
        ck(r.depth() == len(levels) - 1, "depth", "depth() wrong")
        idx = i if i is not None else levels[-2][1] if len(levels) > 1 else -1
        ck(r.index == idx, "index", "index is %r, should be %r" % (r.index, idx))
        ck(r.trail() == ref.trail[id(cur)], "trail", "trail() wrong")
        ck(r.ancestor() is anc, "ancestor", "the ancestor changed")
        shown = kids(n)
        if shown:
            ck((r.start(), r.end()) == (shown[0], shown[-1]), "start/end", "start() or end() wrong", got=(r.start(), r.end()))
    c = r.copy()
    ck(ids(c.nodes()) == ids(ref.nodes), "copy", "a copy has other nodes")
    if len(ref.nodes) >= 3:
        mon.nontrivial(ctx["tree"], ctx["start"], ctx["end"], tuple(log))
        mon.sample(dict(ctx, log=log))


STREAMS = {
    "walk": Stream(case_walk, 2500, 90000),
    "queries": Stream(case_queries, 900, 26000),
    "edits": Stream(case_edits, 3000, 120000),
    "fill": Stream(case_fill, 2000, 80000),
}
