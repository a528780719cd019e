"""Objects which can die, for weak sequences"""
import gc, weakref

gc.disable()
NONE = 99


def opt(i):
    return None if i == NONE else i


class Plain(object):
    """Identity comparison"""

    def __init__(self, name, cycle, truth=True):
        self.name = name
        self.truth = truth
        self.me = self if cycle else None

    def __bool__(self):
        return self.truth


class Valued(Plain):
    """Comparison by the class the name gives"""

    def __init__(self, name, cycle, truth=True):
        super(Valued, self).__init__(name, cycle, truth)
        self.order = {'a': 1, 'b': 2, 'c': 3}[name[0]]

    def __eq__(self, other):
        return isinstance(other, Valued) and self.order == other.order

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return self.order < other.order

    def __le__(self, other):
        return self.order <= other.order

    def __gt__(self, other):
        return self.order > other.order

    def __ge__(self, other):
        return self.order >= other.order

    def __hash__(self):
        return self.order


def name(o):
    if isinstance(o, Plain):
        return o.name
    return 'unknown %r' % (type(o),)


class Base(object):
    names = ()
    cls = Plain

    def __init__(self, config):
        self.kids = {}

    def cleanup(self):
        self.kids = {}
        self.subject = None

    def reset(self, ident, params, rng=None):
        self.count = ident
        self.cycle = ident % 5 == 0
        self.kids = {}
        self.refs = {}
        for n in self.names:
            self.birth(n)

    def birth(self, n):
        # members may count as false, as an empty container does
        truth = (self.count + sum(map(ord, n))) % 3 != 0
        self.kids[n] = self.cls(n, self.cycle, truth)
        self.refs[n] = weakref.ref(self.kids[n])

    def kill(self, n):
        del self.kids[n]
        if self.cycle:
            gc.collect()

    def live(self):
        return [n for n in self.names if self.refs[n]() is not None]

    def iterable(self, v, more=()):
        """The named objects in some kind of iterable"""
        v = [self.kids[x] for x in v]
        self.count += 1
        kinds = [lambda: v, lambda: tuple(v), lambda: iter(v), lambda: (x for x in v),
                 lambda: [weakref.ref(x) for x in v]] + [lambda m=m: m(v) for m in more]
        return kinds[self.count % len(kinds)]()
