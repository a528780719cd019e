"""Copies of nodes and scenegraphs: the real side of spec/Copies.tla"""
import numpy
from vrml import node, field, fieldtypes, route, protofunctions
from vrml.vrml97 import scenegraph

# a type of value which may be changed in place, and four values
TYPES = [
    ('MFString', [['', 'q'], ['a', 'b'], ['c', 'd']]),
    ('SFVec3f', [[0, 0, 0], [1, 2, 3], [4, 5, 6]]),
    ('MFFloat', [[0, 0], [1, 2.5], [3, 4]]),
    ('MFInt32', [[0, 0], [1, 2], [3, 4]]),
    ('SFColor', [[0, 0, 0], [0, 1, 0], [1, 0, .5]]),
    ('MFVec3f', [[[0, 0, 0]], [[1, 2, 3]], [[4, 5, 6]]]),
    ('SFRotation', [[0, 0, 1, 0], [0, 1, 0, 1], [1, 0, 0, 2]]),
    ('MFColor', [[[0, 0, 0]], [[1, 0, 1]], [[0, 1, 0]]]),
    ('MFVec2f', [[[0, 0]], [[1, 2]], [[4, 5]]]),
    ('MFRotation', [[[0, 0, 1, 0]], [[1, 0, 0, 1]], [[0, 1, 0, 3]]]),
    ('SFImage', [[1, 1, 1, 5], [1, 1, 1, 6], [1, 1, 1, 7]]),
    ('SFVec2f', [[0, 0], [1, 2], [3, 4]]),
    ('MFTime', [[0, 0], [1, 2], [3, 4]]),
    ('SFArray', [[0, 0], [1, 2], [3, 4]]),
    ('SFArray32', [[0, 0], [1, 2], [3, 4]]),
    ('MFUInt32', [[0, 0], [1, 2], [3, 4]]),
    ('MFFloat32', [[0, 0], [1, 2], [3, 4]]),
    ('SFVec4f', [[0, 0, 0, 0], [1, 2, 3, 4], [2, 3, 4, 5]]),
    ('SFVec3d', [[0, 0, 0], [1, 2, 3], [4, 5, 6]]),
    ('MFVec4f', [[[0, 0, 0, 0]], [[1, 2, 3, 4]], [[2, 3, 4, 5]]]),
]
CLASSES = {}


def classes(t):
    """Node classes with the same fields, made in different ways"""
    if t not in CLASSES:
        name, values = TYPES[t]

        def fields():
            return [
                field.newField('i', 'SFInt32', 1, 0), field.newField('s', 'SFString', 1, ''),
                field.newField('v', name, 1, values[0]), field.newField('kids', 'MFNode', 1, list),
                field.newField('ref', 'SFNode', 1, node.NULL), field.newField('weak', 'WeakSFNode', 1, node.NULL)]
        plain = type('Plain', (node.Node,), dict([(f.name, f) for f in fields()], PROTO='Plain'))
        mixed = fields()
        mixed.reverse()
        # stored under other names, weak before what it refers to, in a subclass
        base = type('Base', (node.Node,), dict([(f.name, f) for f in mixed[:3]], PROTO='Base'))
        own = dict([(f.name, f) for f in mixed[3:]], PROTO='Derived')
        own['kids'] = node.MFNode(' kids', 1)
        base.kids = node.MFNode('other', 1)
        derived = type('Derived', (base,), own)
        CLASSES[t] = [plain, derived, node.prototype('P', fields())]
    return CLASSES[t]


class Driver(object):
    def __init__(self, config):
        self.cleanup()

    def cleanup(self):
        self.objects = {}
        self.order = []

    def reset(self, ident, params, rng=None):
        self.cleanup()
        self.count = self.ident = ident
        self.names = params.get('names', 'm,n').split(',')
        t = ident % len(TYPES)
        self.values = TYPES[t][1]
        self.classes = classes(t)
        self.state = None

    # -------------------------------------------------- what there is
    def label(self, obj):
        if obj is None or obj is node.NULL or not obj:
            return 'NULL'
        return self.labels.get(id(obj)) or 'unknown %s' % (type(obj).__name__,)

    def word(self, value):
        for i, v in enumerate(self.values):
            if isinstance(value, list):
                if value == v:
                    return 'w%d' % i
            elif numpy.shape(value) == numpy.shape(v) and numpy.allclose(value, v):
                return 'w%d' % i
        return str(value)

    def kids(self, obj):
        if isinstance(obj, scenegraph.SceneGraph):
            return obj.children
        return obj.kids

    def line(self, name):
        obj = self.objects[name]
        if obj is None:
            return name + ' is missing'
        kids = ' '.join([self.label(x) for x in self.kids(obj)])
        if isinstance(obj, scenegraph.SceneGraph):
            return '%s kids=%s routes=%s %s' % (
                name, kids, ' '.join(['%s>%s' % (self.label(r.source), self.label(r.destination)) if type(r) is route.ROUTE
                                      and (r.sourceField, r.destinationField) == ('i', 'i') else 'unknown %s' % r for r in obj.routes]),
                ' '.join(['%s=%s' % (d, self.label(obj.getDEF(d)) if obj.getDEF(d) is not None else '') for d in self.names]))
        r = protofunctions.root(obj)
        return '%s i=%s s=%s v=%s kids=%s ref=%s weak=%s def=%s root=%s' % (
            name, obj.i, obj.s, self.word(obj.v), kids, self.label(obj.ref), self.label(obj.weak),
            protofunctions.defName(obj), self.label(r) if r else '')

    def obs(self, ret):
        self.labels = dict((id(obj), name) for name, obj in self.objects.items() if obj is not None)
        return {'ret': ret, 'snap': [self.line(name) for name in self.order]}

    def do(self, op):
        self.count += 1
        return self.obs(getattr(self, 'do_' + op['k'])(op))

    # -------------------------------------------------- operations
    def one(self, name):
        return node.NULL if name == 'NULL' else self.objects[name]

    def do_build(self, op):
        for i, n in reversed(list(enumerate(op['nodes']))):
            cls = self.classes[(self.ident // 3 + i) % 3]
            given = {}
            if n['i'] != '0':
                given['i'] = int(n['i'])
            if n['v'] != 'w0':
                given['v'] = self.values[int(n['v'][1:])]
            if n['ref'] != 'NULL':
                given['ref'] = self.one(n['ref'])
            if n['kids'] or self.ident % 2:
                given['kids'] = [self.one(x) for x in n['kids']]
            self.objects[n['n']] = cls(**given)
        for n in op['nodes']:
            if n['weak'] != 'NULL':
                self.objects[n['n']].weak = self.one(n['weak'])
        self.order = [n['n'] for n in op['nodes']]
        for s in op['scenes']:
            sg = scenegraph.SceneGraph(children=[self.one(x) for x in s['kids']])
            for a, b in s['routes']:
                sg.addRoute(route.ROUTE(self.one(a), 'i', self.one(b), 'i'))
            for d in s['defs']:
                sg.regDefName(d['d'], self.one(d['n']))
            self.objects[s['n']] = sg
            self.order.append(s['n'])
        return 'ok'

    def do_copy(self, op):
        self.pairs = {}
        orig = self.objects[op['x']]
        new = orig.copy()
        names = dict((id(obj), name) for name, obj in self.objects.items() if obj is not None)
        known = set(names)
        pairs = {}

        def walk(a, b):
            """What in the copy stands where in the original"""
            name = names.get(id(a))
            if name is None or name in pairs:
                return
            # an object which was there before, or is of another type, is no copy
            good = b is not None and id(b) not in known and type(a) is type(b)
            pairs[name] = b if good else None
            if good:
                known.add(id(b))
            self.parts(a, b, walk)
        walk(orig, new)
        mine = [name for name in self.order if name in pairs]
        for name in mine:
            self.objects[name + op['p']] = pairs[name]
            self.order.append(name + op['p'])
        return op['x'] + op['p'] if pairs.get(op['x']) is new else 'no copy'

    def parts(self, a, b, walk):
        scene = isinstance(a, scenegraph.SceneGraph)

        def at(l, i):
            try:
                return list(l())[i]
            except Exception:
                return None
        for i, x in enumerate(self.kids(a)):
            walk(x, at(lambda: self.kids(b), i))
        if scene:
            for i, r in enumerate(a.routes):
                s = at(lambda: b.routes, i)
                walk(r.source, getattr(s, 'source', None))
                walk(r.destination, getattr(s, 'destination', None))
            for d in self.names:
                if a.getDEF(d) is not None:
                    walk(a.getDEF(d), at(lambda: [b.getDEF(d)], 0))
        elif a.ref:
            walk(a.ref, getattr(b, 'ref', None))

    def do_i(self, op):
        self.objects[op['x']].i = int(op['val'])
        return 'ok'

    def do_s(self, op):
        self.objects[op['x']].s = op['val']
        return 'ok'

    def do_unset(self, op):
        obj = self.objects[op['x']]
        if protofunctions.getField(obj, 's').fhas(obj):
            del obj.s
        return 'ok'

    def do_v(self, op):
        self.objects[op['x']].v = self.values[int(op['val'][1:])]
        return 'ok'

    def do_poke(self, op):
        """Change it in place"""
        v = self.objects[op['x']].v
        new = self.values[int(op['val'][1:])]
        for i in range(len(new)):
            v[i] = new[i]
        return 'ok'

    def do_kids(self, op):
        obj = self.objects[op['x']]
        setattr(obj, 'children' if isinstance(obj, scenegraph.SceneGraph) else 'kids', [self.one(x) for x in op['val']])
        return 'ok'

    def do_ref(self, op):
        self.objects[op['x']].ref = self.one(op['val'])
        return 'ok'

    def do_weak(self, op):
        self.objects[op['x']].weak = self.one(op['val'])
        return 'ok'

    def do_add(self, op):
        self.kids(self.objects[op['x']]).append(self.one(op['val']))
        return 'ok'

    def do_take(self, op):
        l = self.kids(self.objects[op['x']])
        if not len(l):
            return 'nothing'
        l.pop()
        return 'ok'

    def do_route(self, op):
        sg = self.objects[op['x']]
        if self.count % 2:
            sg.addRoute(route.ROUTE(self.one(op['a']), 'i', self.one(op['b']), 'i'))
        else:
            sg.addRoute(self.one(op['a']), 'i', self.one(op['b']), 'i')
        return 'ok'

    def do_unroute(self, op):
        l = self.objects[op['x']].routes
        if not len(l):
            return 'nothing'
        l.pop()
        return 'ok'

    def do_def(self, op):
        self.objects[op['x']].regDefName(op['d'], self.one(op['n']))
        return 'ok'

    # -------------------------------------------------- random executions
    NODES = 'abcde'
    DEFS = dict(a='m', b='n', c='p', d='q', e='r')

    def gen(self, rng):
        if self.state is None:
            return self.gen_build(rng)
        # passes which were made, and of which the objects are known
        k = rng.choice(['copy'] * 2 + ['i', 'i', 'i', 's', 'unset', 'v', 'poke', 'poke', 'kids', 'ref', 'weak', 'add', 'take',
                                       'route', 'unroute', 'def'])
        if k == 'copy':
            p = str(len(self.passes))
            if len(self.passes) > 4:
                k = 'i'
            else:
                x = rng.choice(sorted(self.state) + [s for s in self.state if s[0] in 'ST'] * 3)
                new = self.reach(x)
                self.passes.append(p)
                for y in new:
                    n = self.state[y]
                    self.state[y + p] = {
                        'kids': [z + p for z in n['kids']], 'ref': n['ref'] and n['ref'] + p,
                        'routes': [(a + p, b + p) for a, b in n['routes']],
                        'defs': dict((d, z + p) for d, z in n['defs'].items()), 'def': n['def'], 'root': (n['root'] + p if n['root'] in new else n['root'])}
                return dict(k='copy', x=x, p=p)
        nodes = sorted([x for x in self.state if x[0] in self.NODES])
        scenes = sorted([x for x in self.state if x[0] in 'ST'])
        x = rng.choice(nodes)
        if k == 'i':
            return dict(k=k, x=x, val=str(rng.randint(0, 9)))
        if k == 's':
            return dict(k=k, x=x, val=rng.choice(['', 'x', 'y']))
        if k == 'unset':
            return dict(k=k, x=x)
        if k in ('v', 'poke'):
            return dict(k=k, x=x, val='w%d' % rng.randint(0, 2))
        if k == 'weak':
            val = rng.choice(['NULL'] + nodes)
            if val != 'NULL':
                self.attach([val], x)
            return dict(k=k, x=x, val=val)
        if k in ('kids', 'add', 'take') and scenes and rng.random() < .3:
            x = rng.choice(scenes)
        under = [y for y in nodes if y[1:] == x[1:] and (x[0] in 'ST' or y[0] > x[0])]
        if k == 'kids':
            val = [rng.choice(under) for i in range(rng.randint(0, 3))] if under else []
            self.state[x]['kids'] = val
            self.attach(val, x)
            return dict(k=k, x=x, val=val)
        if k == 'ref':
            val = rng.choice(under + ['NULL']) if under else 'NULL'
            self.state[x]['ref'] = '' if val == 'NULL' else val
            if val != 'NULL':
                self.attach([val], x)
            return dict(k=k, x=x, val=val)
        if k == 'add' and under:
            y = rng.choice(under)
            self.state[x]['kids'] = self.state[x]['kids'] + [y]
            return dict(k=k, x=x, val=y)
        if k == 'take':
            self.state[x]['kids'] = self.state[x]['kids'][:-1]
            return dict(k=k, x=x)
        if scenes:
            x = rng.choice(scenes)
            under = [y for y in nodes if y[1:] == x[1:]]
            if k == 'route' and len(under) > 1 and len(self.state[x]['routes']) < 5:
                a, b = rng.sample(under, 2)
                self.state[x]['routes'] = self.state[x]['routes'] + [(a, b)]
                return dict(k=k, x=x, a=a, b=b)
            if k == 'unroute':
                self.state[x]['routes'] = self.state[x]['routes'][:-1]
                return dict(k=k, x=x)
            if k == 'def' and under:
                n = rng.choice(under)
                d = self.DEFS[n[0]]
                self.state[x]['defs'][d] = n
                self.state[n]['def'] = d
                return dict(k=k, x=x, n=n, d=d)
        return dict(k='i', x=rng.choice(nodes), val=str(rng.randint(0, 9)))

    def attach(self, values, x):
        """Whose names get registered where"""
        root = x if x[0] in 'ST' else self.state[x]['root']
        for v in values:
            if root and not self.state[v]['root']:
                self.adopt(v, root)

    def adopt(self, v, root):
        n = self.state[v]
        n['root'] = root
        if n['def']:
            self.state[root]['defs'][n['def']] = v
        for z in n['kids'] + [n['ref']] * bool(n['ref']):
            self.adopt(z, root)

    def reach(self, x, found=None):
        found = [] if found is None else found
        if x in found:
            return found
        found.append(x)
        n = self.state[x]
        for y in n['kids'] + [n['ref']] * bool(n['ref']) + [z for r in n['routes'] for z in r] + sorted(n['defs'].values()):
            self.reach(y, found)
        return found

    def gen_build(self, rng):
        self.state = {}
        self.passes = ['0']
        nodes, scenes = [], []
        names = self.NODES[:rng.randint(2, 5)]
        for i, n in enumerate(names):
            later = names[i + 1:]
            kids = [rng.choice(later) for x in range(rng.randint(0, 3))] if later else []
            ref = rng.choice(list(later) + ['NULL'])
            nodes.append(dict(n=n, i=str(rng.randint(0, 9)), v='w%d' % rng.randint(0, 2), kids=kids, ref=ref,
                              weak=rng.choice(list(names) + ['NULL'])))
            self.state[n] = dict(kids=kids, ref='' if ref == 'NULL' else ref, routes=[], defs={}, root='', **{'def': ''})
        for s in 'ST'[:rng.choice([0, 1, 1, 1, 2])]:
            kids = [rng.choice(names) for x in range(rng.randint(0, 3))]
            routes = [rng.sample(names, 2) for x in range(rng.randint(0, 3))]
            defs = [dict(d=self.DEFS[n], n=n) for n in names if rng.random() < .4]
            scenes.append(dict(n=s, kids=kids, routes=routes, defs=defs))
            self.state[s] = dict(kids=kids, ref='', routes=[tuple(r) for r in routes], defs={}, root=s, **{'def': ''})
            for k in kids:
                self.adopt(k, s)
            for d in defs:
                self.state[s]['defs'][d['d']] = d['n']
                self.state[d['n']]['def'] = d['d']
        return dict(k='build', nodes=nodes, scenes=scenes)
