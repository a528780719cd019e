"""Roots and DEF names: the real side of spec/SceneGraph.tla"""
import gc, weakref
from vrml import node, protofunctions, field, fieldtypes
from vrml.vrml97 import scenegraph, basenodes


class Plain(node.Node):
    one = node.SFNode('one', 1)
    many = node.MFNode('many', 1)


class Spaced(node.Node):
    """Storage names differ, other fields about"""
    size = fieldtypes.SFInt32('size', 1, 4)
    many = node.MFNode(' many', 1)
    points = fieldtypes.MFVec3f('points', 1, list)
    other = node.SFNode('other', 1)
    one = node.SFNode(' one', 1)
    url = fieldtypes.MFString('url', 1, list)


class Derived(Plain):
    more = node.MFNode('more', 1)


ORDER = ['t1', 't2', 't3', 't4', 't5', 'r1', 'r2']


class Driver(object):
    def __init__(self, config):
        pass

    def cleanup(self):
        self.nodes = {}
        self.scenes = {}

    def reset(self, ident, params, rng=None):
        self.count = ident
        self.names = params['names'].split(',')
        self.order = params['nodes'].split(',')
        self.sceneorder = params['scenes'].split(',')
        proto = node.prototype('P', [node.SFNode('one', 1), node.MFNode('many', 1)])
        classes = [Plain, Spaced, proto, Derived]
        preset = dict(item.split(':', 1) for item in params.get('preset', '').split() if item)
        self.nodes = {}
        for i, n in reversed(list(enumerate(self.order))):
            cls = classes[(ident + i) % 4]
            if n in preset:
                # its fields have nodes by default
                one, many = preset[n].split(':')
                own = {}
                if one:
                    own['one'] = node.SFNode(protofunctions.getField(cls, 'one').name, 1, self.nodes[one])
                if many:
                    own['many'] = node.MFNode(protofunctions.getField(cls, 'many').name, 1, [self.nodes[m] for m in many.split(',')])
                cls = type('Preset', (cls,), own)
            self.nodes[n] = cls()
        self.scenes = {}
        # what gen knows
        self.live = set()

    def label(self, o):
        for n, x in self.nodes.items():
            if x is o:
                return n
        for n, x in self.scenes.items():
            if x is o:
                return n
        return '' if not o else 'unknown'

    def do(self, op):
        self.count += 1
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except Exception as err:
            ret = ['raised %s %s' % (type(err).__name__, err)]
        if not op.get('look', 1):
            # reading the roots may change what there is
            return {'ret': ret, 'names': [], 'nodes': []}
        names = []
        for s in self.sceneorder:
            if s in self.scenes:
                names.append(s + ''.join([' %s=%s' % (d, self.label(self.scenes[s].getDEF(d))) for d in self.names]))
                extra = [d for d in self.scenes[s].defNames if d and d not in self.names]
                if extra:
                    names.append('%s knows %s' % (s, extra))
        nodes = ['%s root %s DEF %s' % (n, self.label(self.root(self.nodes[n])), self.nodes[n].DEF) for n in self.order]
        return {'ret': ret, 'names': names, 'nodes': nodes}

    def root(self, o):
        if self.count % 2:
            return protofunctions.root(o)
        return o.rootSceneGraph

    def list(self, names):
        out = [self.nodes[n] for n in names]
        return tuple(out) if self.count % 3 == 0 else out

    def put(self, o, key, value):
        f = protofunctions.getField(o, key)
        how = self.count % 3
        if how == 0:
            f.fset(o, value)
        elif how == 1:
            setattr(o, key, value)
        else:
            f.fset(o, value, notify=0)

    def do_scene(self, op):
        kids = self.list(op['kids'])
        if not kids and self.count % 2:
            self.scenes[op['s']] = scenegraph.SceneGraph()
        else:
            self.scenes[op['s']] = scenegraph.SceneGraph(children=kids)
        return ['ok']

    def do_drop(self, op):
        ref = weakref.ref(self.scenes.pop(op['s']))
        gc.collect(1)
        if ref() is not None:
            gc.collect()
        return ['gone' if ref() is None else 'still there']

    def holder(self, x):
        return self.scenes[x] if x in self.scenes else self.nodes[x]

    def key(self, x):
        return 'children' if x in self.sceneorder else 'many'

    def do_one(self, op):
        v = None if op['n'] == '' else self.nodes[op['n']]
        if v is None and self.count % 2:
            v = node.NULL
        self.put(self.nodes[op['x']], 'one', v)
        return ['ok']

    def do_many(self, op):
        kids = self.list(op['kids'])
        if len(kids) == 1 and self.count % 2:
            kids = kids[0]
        self.put(self.holder(op['x']), self.key(op['x']), kids)
        return ['ok']

    def do_append(self, op):
        getattr(self.holder(op['x']), self.key(op['x'])).append(self.nodes[op['n']])
        return ['ok']

    def do_read(self, op):
        h = self.holder(op['x'])
        one = '' if op['x'] in self.sceneorder else self.label(h.one)
        return [one] + [self.label(x) for x in getattr(h, self.key(op['x']))]

    def do_root(self, op):
        n, s = self.nodes[op['n']], self.scenes[op['s']]
        how = self.count % 3
        if how == 0:
            protofunctions.root(n, s)
        elif how == 1:
            n.rootSceneGraph = s
        else:
            node.Node.rootSceneGraph.fset(n, s)
        return ['ok']

    def do_unroot(self, op):
        n = self.nodes[op['n']]
        if self.count % 2:
            n.rootSceneGraph = None
        else:
            node.Node.rootSceneGraph.fset(n, None, notify=0)
        return ['ok']

    def do_reg(self, op):
        self.scenes[op['s']].regDefName(op['d'], self.nodes[op['n']])
        return ['ok']

    def do_def(self, op):
        n = self.nodes[op['n']]
        if self.count % 3 == 0 and op['d']:
            protofunctions.defName(n, op['d'])
        elif self.count % 3 == 1 and not op['d'] and node.Node.DEF.fhas(n):
            del n.DEF
        else:
            n.DEF = op['d']
        return ['ok']

    # random behaviours: t nodes make up trees and have their own names, r nodes share names
    def pool(self, n):
        return ['P', 'Q'] if n[0] == 'r' else [d for d in self.names if d[-1] == n[-1]]

    def gen(self, rng):
        op = self.some(rng)
        if rng.random() < (.7 if op['k'] == 'drop' else .2):
            op['look'] = 0
        return op

    def some(self, rng):
        dead = [s for s in self.sceneorder if s not in self.live]
        live = sorted(self.live)
        k = rng.choice(['scene', 'scene', 'drop', 'one', 'one', 'many', 'many', 'append', 'read', 'root', 'unroot', 'reg', 'reg', 'reg', 'def'])
        if k in ('drop', 'root', 'reg') and not live:
            k = 'scene'
        if k == 'scene' and not dead:
            k = 'many'
        some = lambda seq, top: [rng.choice(seq) for x in range(rng.randint(0, top))] if seq else []
        trees = [n for n in self.order if n[0] == 't']
        if k == 'scene':
            s = rng.choice(dead)
            self.live.add(s)
            return dict(k=k, s=s, kids=some(trees, 3) if rng.random() < .7 else [rng.choice(['r1', 'r2'])])
        if k == 'drop':
            s = rng.choice(live)
            if rng.random() < .5:
                return dict(k='read', x=s)
            self.live.discard(s)
            return dict(k=k, s=s)
        if k == 'root':
            return dict(k=k, n=rng.choice(self.order), s=rng.choice(live))
        if k == 'unroot':
            return dict(k=k, n=rng.choice(self.order))
        if k in ('reg', 'def'):
            n = rng.choice(self.order)
            if rng.random() < .5:
                n = rng.choice(['r1', 'r2'])
            d = rng.choice(self.pool(n))
            if k == 'def':
                return dict(k=k, n=n, d=d if rng.random() < .7 else '')
            return dict(k=k, n=n, s=rng.choice(live), d=d)
        x = rng.choice(trees[:-1] + live * 2)
        if k == 'one' and x in live:
            x = rng.choice(trees[:-1])
        if x in live:
            # a node of each name at a time
            under = trees if rng.random() < .7 else [rng.choice(['r1', 'r2'])]
        else:
            under = [t for t in trees if t > x]
        if k == 'one':
            return dict(k=k, x=x, n=rng.choice(under + ['']))
        if k == 'many':
            return dict(k=k, x=x, kids=some(under, 3 if len(under) > 1 else 1))
        if k == 'append':
            return dict(k=k, x=x, n=rng.choice(under))
        return dict(k='read', x=x)
