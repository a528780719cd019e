"""Scenegraph paths: the real side of spec/NodePath.tla"""
import gc, weakref
from vrml import node
from vrml.vrml97 import nodepath, basenodes

NONE = 99


class Same(basenodes.Group):
    """A node which considers itself equal to any other"""
    def __eq__(self, other):
        return isinstance(other, node.Node)

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


class Driver(object):
    def __init__(self, config):
        pass

    def cleanup(self):
        self.nodes = {}
        self.paths = {}

    def reset(self, ident, params, rng=None):
        self.count = ident
        names = 'abcde' if rng else 'ab'
        self.classes = [(basenodes.Transform, basenodes.Shape, Same)[ident % 3]]
        self.nodes = dict((n, self.classes[0]()) for n in names)
        # the node objects by identity, without keeping them alive
        self.names = dict((id(o), n) for n, o in self.nodes.items())
        self.paths = {}
        self.refs = {}
        self.made = 0
        self.alive = set(names)
        self.kinds = {}
        self.items = {}
        self.held = set()

    def label(self, o):
        return self.names.get(id(o), 'unknown')

    def kind(self, p):
        return {nodepath.NodePath: 'strong', nodepath.WeakNodePath: 'weak'}.get(type(p), type(p).__name__)

    def name(self, p):
        for n, r in self.refs.items():
            if r() is p:
                return 'p%d' % n
        return 'unknown path'

    def snap(self):
        out = []
        for n, r in sorted(self.refs.items()):
            p = r()
            if p is not None:
                out.append('p%d %s [%s]%s children %s' % (
                    n, self.kind(p), ','.join([self.label(x) for x in p]), ' broken' if p.broken else '',
                    ','.join([self.name(c) for c in p.iterchildren()])))
        return out

    def add(self, p):
        self.made += 1
        self.paths[self.made] = p
        self.refs[self.made] = weakref.ref(p)

    def do(self, op):
        self.count += 1
        ret = getattr(self, 'do_' + op['k'])(op)
        if op['k'] in ('drop', 'kill'):
            gc.collect(0)
        return {'ret': ret, 'snap': self.snap()}

    def seq(self, items):
        return [self.nodes[x] for x in items]

    def do_new(self, op):
        cls = nodepath.NodePath if op['kind'] == 'strong' else nodepath.WeakNodePath
        items = self.seq(op['items'])
        if not items and self.count % 2:
            self.add(cls())
        elif self.count % 3:
            self.add(cls(items))
        else:
            self.add(cls(tuple(items)))
        return ['ok']

    def do_add(self, op):
        items = self.seq(op['items'])
        if len(items) == 1 and self.count % 2:
            items = items[0]
        self.add(self.paths[op['i']] + items)
        return ['ok']

    def do_addpath(self, op):
        self.add(self.paths[op['i']] + self.paths[op['j']])
        return ['ok']

    def shown(self, p):
        return [self.kind(p)] + [self.label(x) for x in p]

    def do_slice(self, op):
        return self.shown(self.paths[op['i']][slice(*[None if op[x] == NONE else op[x] for x in 'abc'])])

    def do_item(self, op):
        try:
            return [self.label(self.paths[op['i']][op['a']])]
        except IndexError:
            return ['IndexError']

    def do_iter(self, op):
        p = self.paths[op['i']]
        out = [self.label(x) for x in p]
        if len(p) != len(out):
            out.append('len %d' % len(p))
        return out

    def do_common(self, op):
        return self.shown(self.paths[op['i']].common(self.paths[op['j']]))

    def compare(self, a, b):
        eq, ne = a == b, a != b
        if self.count % 2:
            eq, ne = b == a, b != a
        if bool(eq) == bool(ne):
            return ['both == and !=' if eq else 'neither == nor !=']
        return ['equal' if eq else 'different']

    def do_eq(self, op):
        return self.compare(self.paths[op['i']], self.paths[op['j']])

    def do_eqseq(self, op):
        seq = self.seq(op['items'])
        return self.compare(self.paths[op['i']], seq if self.count % 3 else tuple(seq))

    def do_other(self, op):
        return self.compare(self.paths[op['i']], (None, 5, 'x', {})[self.count % 4])

    def do_children(self, op):
        return [self.name(p) for p in self.paths[op['i']].iterchildren()]

    def do_invalidate(self, op):
        self.paths[op['i']].invalidate()
        return ['ok']

    def do_drop(self, op):
        del self.paths[op['i']]
        return ['ok']

    def do_kill(self, op):
        n = op['n']
        ref = weakref.ref(self.nodes[n])
        del self.nodes[n]
        gc.collect(0)
        return ['ok'] if ref() is None else ['still alive']

    # random behaviours; what is there is known from what was done
    def gen(self, rng):
        held = sorted(self.held)
        alive = sorted(self.alive)
        k = rng.choice(['new'] + ['add'] * 3 + ['addpath', 'slice', 'slice', 'item', 'iter', 'common', 'eq', 'eqseq',
                                                'other', 'children', 'invalidate', 'drop', 'drop', 'kill'])
        if self.made >= 24 and k in ('new', 'add', 'addpath'):
            k = 'iter'
        if not held:
            if self.made >= 24:
                return None
            k = 'new'
        few = [rng.choice(alive) for x in range(rng.randint(0, 3))] if alive else []
        if k == 'new':
            kind = rng.choice(['strong', 'weak', 'weak'])
            return self.noted(dict(k=k, kind=kind, items=few), kind, few, 0)
        i, j = rng.choice(held), rng.choice(held)
        if rng.random() < .5:
            i = held[-1]
        if k == 'add':
            return self.noted(dict(k=k, i=i, items=few), self.kinds[i], self.items[i] + few, i)
        if k == 'addpath':
            if len(self.items[i]) + len(self.items[j]) > 10:
                return dict(k='iter', i=i)
            return self.noted(dict(k=k, i=i, j=j), self.kinds[i], self.items[i] + self.items[j], i)
        if k == 'kill':
            strong = set(x for n in self.items if self.kinds[n] == 'strong' for x in self.items[n])
            can = [x for x in alive if x not in strong]
            if not can or len(alive) < 3:
                return dict(k='iter', i=i)
            n = rng.choice(can)
            self.alive.discard(n)
            for x in self.items:
                self.items[x] = [y for y in self.items[x] if y != n]
            return dict(k=k, n=n)
        if k == 'drop':
            self.held.discard(i)
            self.forget()
            return dict(k=k, i=i)
        b = [NONE, 0, 1, 2, 3, -1, -2, 7]
        if k == 'slice':
            return dict(k=k, i=i, a=rng.choice(b), b=rng.choice(b), c=rng.choice([NONE, NONE, 1, 2, -1]))
        if k == 'item':
            return dict(k=k, i=i, a=rng.randint(-3, 3))
        if k == 'eqseq':
            return dict(k=k, i=i, items=[x for x in self.items[i]] if rng.random() < .5 else few)
        if k in ('common', 'eq'):
            return dict(k=k, i=i, j=j)
        return dict(k=k, i=i)

    def noted(self, op, kind, items, parent):
        n = len(self.kinds) + 1
        self.kinds[n] = kind
        self.items[n] = list(items)
        self.parents = getattr(self, 'parents', {}) if n > 1 else {}
        self.parents[n] = parent
        self.held.add(n)
        return op

    def forget(self):
        """Paths which nobody holds have no nodes"""
        keep = set(self.held)
        for n in sorted(self.items, reverse=True):
            if n in keep:
                keep.add(self.parents[n])
        for n in self.items:
            if n not in keep:
                self.items[n] = []
