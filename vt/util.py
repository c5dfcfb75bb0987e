"""Small shared helpers: comparison of element trees, origin stripping."""
from fractions import Fraction



def sig(node):
    """Structural signature of an element tree, independent of Node.equals."""
    return (type(node).__module__.split(".")[-1] + "." + type(node).__name__, _head(node), [sig(c) for c in list.__iter__(node)])


def _head(node):
    from quickly.dom import element
    if isinstance(node, element.TextElement):
        h = node.head
        if isinstance(h, (int, float, complex, Fraction)) and not isinstance(h, bool):
            return _num(h)
        return (type(h).__name__, repr(h))
    return None


def _num(h):
    """Numbers are compared by value (nan is the same as nan)."""
    if isinstance(h, complex):
        return ("complex", _num(h.real), _num(h.imag)) if h.imag else _num(h.real)
    if h != h:
        return "nan"
    if isinstance(h, float) and h in (float("inf"), -float("inf")):
        return str(h)
    n, d = h.as_integer_ratio()
    return "%x/%x" % (n, d)


def tree_diff(a, b, path=()):
    """Return None or a description of the first difference."""
    if type(a) is not type(b):
        return "%s: %r vs %r" % (list(path), a, b)
    if _head(a) != _head(b):
        return "%s: head %r vs %r in %s" % (list(path), a.head, b.head, type(a).__name__)
    for i, (x, y) in enumerate(zip(list.__iter__(a), list.__iter__(b))):
        d = tree_diff(x, y, path + (i,))
        if d:
            return d
    if len(a) != len(b):
        return "%s: %s has %d vs %d children: %r / %r" % (list(path), type(a).__name__, len(a), len(b), list(a)[:12], list(b)[:12])
    return None
