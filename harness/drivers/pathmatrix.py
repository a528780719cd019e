"""Matrices of paths: the real side of spec/PathMatrix.tla"""
import gc
import weakref
from vrml import cache, route, node, field
from vrml.vrml97 import basenodes, nodepath
from drivers import matrix
from vrml.arrays import identity
from drivers.matrix import POINTS, SCALES, ROTS, spell, show, rotation

PALETTE = dict(translation=POINTS, center=POINTS, rotation=ROTS, so=ROTS, scale=SCALES)
NAMES = dict(translation='translation', center='center', rotation='rotation', so='scaleOrientation', scale='scale')
PATHS = dict(p1=['t1'], p2=['t1', 'g', 't2'], p3=['t2', 't1'], p4=['g'], p5=['t1', 'g', 't2', 't3'],
             p6=['t1', 't3', 'g'], p7=['t3', 't3'], p8=[])


class Driver(object):
    def __init__(self, config):
        self.nodes = {}

    def cleanup(self):
        self.nodes = self.paths = {}
        self.sources = {}
        cache.CACHE.clear()

    def reset(self, ident, params, rng=None):
        self.count = ident
        self.nodes = dict((t, basenodes.Transform()) for t in ('t1', 't2', 't3'))
        self.nodes['g'] = basenodes.Group()
        self.sources = {}
        self.build(0, ident % 3 == 0)

    def build(self, weak, extended):
        cls = (nodepath.NodePath, nodepath.WeakNodePath)[weak]
        self.paths = {}
        for p, names in PATHS.items():
            if extended:
                # extended node by node
                path = cls([])
                keep = [path]
                for n in names:
                    path = path + [self.nodes[n]]
                    keep.append(path)
                path._keep = keep
            else:
                path = cls([self.nodes[n] for n in names])
            self.paths[p] = path

    def do_build(self, op):
        for t in ('t1', 't2', 't3'):
            if t not in self.nodes:
                self.nodes[t] = basenodes.Transform()
        self.build(op['weak'], op['ext'])
        return {'ret': 'ok', 'm': []}

    def do_die(self, op):
        # its routes hold it
        for key in [k for k in self.sources if k[0] == op['t']]:
            del self.sources[key]
        ref = weakref.ref(self.nodes.pop(op['t']))
        if ref() is not None:
            gc.collect()
        return {'ret': 'ok' if ref() is None else 'still there', 'm': []}

    def do(self, op):
        try:
            return getattr(self, 'do_' + op['k'])(op)
        except (ValueError, AttributeError) as err:
            return {'ret': 'ValueError' if isinstance(err, ValueError) else 'AttributeError', 'm': []}

    def value(self, f, label):
        self.count += 1
        if f in ('rotation', 'so'):
            return spell(rotation(label, 0), self.count)
        return spell(PALETTE[f][label], self.count)

    def do_set(self, op):
        t, f = self.nodes[op['t']], NAMES[op['f']]
        v = self.value(op['f'], op['v'])
        if op['w'] == 'attr':
            setattr(t, f, v)
        elif op['w'] == 'fset':
            getattr(basenodes.Transform, f).fset(t, v)
        else:
            # by a route, which stays
            key = (op['t'], f)
            if key not in self.sources:
                source = basenodes.Transform()
                self.sources[key] = source, route.ROUTE(
                    source=source, sourceField=f, destination=t, destinationField=f)
            setattr(self.sources[key][0], f, v)
        return {'ret': 'ok', 'm': []}

    def do_bad(self, op):
        setattr(self.nodes[op['t']], NAMES[op['f']], [1])
        return {'ret': 'ok', 'm': []}

    def do_read(self, op):
        v = getattr(self.nodes[op['t']], NAMES[op['f']])
        for label, known in PALETTE[op['f']].items():
            if len(known) == len(v) and all(abs(a - b) < 1e-6 for a, b in zip(v, known)):
                return {'ret': label, 'm': []}
        return {'ret': 'unknown' if tuple(v) != (0, 0, 1, 0) else 'none', 'm': []}

    def do_del(self, op):
        delattr(self.nodes[op['t']], NAMES[op['f']])
        return {'ret': 'ok', 'm': []}

    def do_local(self, op):
        named = self.flags(op)
        inverse = named.pop('inverse', 0)
        m = self.nodes[op['t']].localMatrices(**named).data[int(inverse)]
        return {'ret': 'ok', 'm': show(identity(4, dtype='f') if m is None else m)}

    def do_query(self, op):
        return {'ret': 'ok', 'm': show(self.paths[op['p']].transformMatrix(**self.flags(op)))}

    def flags(self, op):
        self.count += 1
        kinds = (lambda x: x, bool) [self.count % 2]
        # 1 and True are the same key
        named = dict(translate=kinds(op['tr']), scale=kinds(op['sc']), rotate=kinds(op['ro']), inverse=kinds(op['inv']))
        if self.count % 3 == 0:
            for k in ('translate', 'scale', 'rotate'):
                if named[k]:
                    del named[k]
            if not named['inverse']:
                del named['inverse']
        return named

    def gen(self, rng):
        if not hasattr(rng, 'dead'):
            rng.weak, rng.dead = 0, set()
        t = rng.choice([t for t in ('t1', 't2', 't3') if t not in rng.dead])
        f = rng.choice(sorted(NAMES))
        k = rng.choice(['set'] * 4 + ['bad', 'read', 'del', 'local', 'local'] + ['query'] * 8)
        if rng.random() < .06:
            if rng.weak and len(rng.dead) < 2 and rng.random() < .7:
                rng.dead.add(t)
                return dict(k='die', t=t)
            rng.weak, rng.dead = rng.choice([0, 1, 1]), set()
            return dict(k='build', weak=rng.weak, ext=rng.randint(0, 1))
        if k in ('query', 'local'):
            flags = rng.choice([(1, 1, 1), (1, 1, 1), tuple(rng.randint(0, 1) for i in range(3))])
            if k == 'local':
                return dict(k=k, t=t, tr=flags[0], sc=flags[1], ro=flags[2], inv=rng.randint(0, 1))
            return dict(k=k, p=rng.choice(sorted(PATHS)), tr=flags[0], sc=flags[1], ro=flags[2], inv=rng.randint(0, 1))
        if k == 'set':
            labels = [x for x in sorted(PALETTE[f]) if x not in ('flat', 'zero' if f in ('rotation', 'so') else '-',
                                                                'none', 'mixed', 'half')]
            return dict(k=k, t=t, f=f, v=rng.choice(labels), w=rng.choice(['attr', 'fset', 'route']))
        return dict(k=k, t=t, f=f)
