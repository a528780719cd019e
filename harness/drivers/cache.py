"""The cache: the real side of spec/Cache.tla"""
import gc, weakref
from vrml import cache, node, field, route, fieldtypes

gc.disable()
Proto = node.prototype('CacheClient', [
    field.newField('f', 'SFInt32', 1, 3),
    field.newField('g', 'MFVec3f', 1, []),
    field.newField('l', 'MFNode', 1, []),
], baseClasses=(node.Node,))
NAMES = ('n1', 'n2', 'n3')
KEYS = ('', 'k')


class Data(object):
    """Something to cache (which may count as false, as an empty display list does)"""

    def __init__(self, text, truth):
        self.text = text
        self.truth = truth

    def __bool__(self):
        return self.truth


class Driver(object):
    def __init__(self, config):
        self.nodes = {}

    def cleanup(self):
        self.nodes = {}
        self.old = []
        self.sources = []
        self.caches = {}
        self.refs = {}
        self.routes = []
        cache.CACHE.clear()
        gc.collect()

    def reset(self, ident, params, rng=None):
        self.keepold = ident % 2
        # keys are opaque
        self.opaque = {'': '', 'k': ('k', None, 0, ('matrix', True, False), b'')[ident // 2 % 5]}
        self.cycle = ident % 3 == 0
        self.old = []
        self.routes = []
        self.count = ident
        self.context = params.get('caches', 1) > 1
        self.caches = {'global': cache.CACHE}
        if self.context:
            self.caches['context'] = cache.Cache()
        self.names = NAMES[:params.get('nodes', 2)]
        self.nodes = {}
        self.refs = {}
        for n in self.names:
            self.birth(n)

    def birth(self, n):
        o = Proto()
        if self.cycle:
            o.__dict__['_me'] = o
        self.nodes[n] = o
        self.refs[n] = weakref.ref(o)

    def do(self, op):
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (ValueError, AttributeError) as err:
            ret = 'ValueError' if isinstance(err, ValueError) else 'AttributeError'
        entries = []
        nothing = object()
        for c in sorted(self.caches):
            ca = self.caches[c]
            shown = {}
            for n in self.names:
                if n not in self.nodes:
                    continue
                for q in KEYS:
                    data = ca.getData(self.nodes[n], self.opaque[q], nothing)
                    holder = ca.getHolder(self.nodes[n], self.opaque[q])
                    if holder is None and data is nothing:
                        continue
                    if holder is None or holder.data is not data:
                        text = 'confused'
                    elif data is None:
                        text = 'empty'
                    else:
                        text = data.text if data.slot == (c, n, q) else 'of another'
                    entries.append('%s %s %s=%s' % (c, n, q, text))
            mine = set(id(self.nodes[n]) for n in self.nodes)
            for k in list(ca):
                if k not in mine:
                    entries.append('left over entry')
        return {'ret': ret, 'entries': entries,
                'live': [n for n in self.names if self.refs[n]() is not None]}

    def holder(self, op):
        return self.caches[op['c']].getHolder(self.nodes[op['n']], self.opaque[op['q']])

    def data(self, op):
        d = Data(op['v'], self.count % 2 == 0)
        d.slot = (op['c'], op['n'], op['q'])
        return d

    def do_hold(self, op):
        self.count += 1
        n, d, q, c = self.nodes[op['n']], self.data(op), self.opaque[op['q']], op['c']
        old = self.holder(op)
        if self.keepold and old is not None:
            self.old.append(old)
        del old
        if c == 'global' and self.count % 3 == 0:
            if op['q']:
                cache.CacheHolder(n, d, q)
            else:
                cache.CacheHolder(n, d)
        elif self.count % 3 == 1:
            self.caches[c].holder(n, d, key=q)
        else:
            cache.CacheHolder(n, d, key=q, cache=self.caches[c])
        return 'ok'

    def do_set(self, op):
        h = self.holder(op)
        if h is None:
            return 'no entry'
        h.set(self.data(op))
        return 'ok'

    def do_depend(self, op):
        h = self.holder(op)
        if h is None:
            return 'no entry'
        self.count += 1
        f = op['f']
        if self.count % 2:
            f = getattr(Proto, f)
        h.depend(self.nodes[op['m']], f)
        return 'ok'

    def do_dependobj(self, op):
        h = self.holder(op)
        if h is None:
            return 'no entry'
        self.count += 1
        if self.count % 2:
            h.depend(self.nodes[op['m']])
        else:
            h.depend_object(self.nodes[op['m']])
        return 'ok'

    def do_clear(self, op):
        h = self.holder(op)
        if h is None:
            return 'no entry'
        h.clear()
        return 'ok'

    def do_drop(self, op):
        h = self.holder(op)
        if h is None:
            return 'no entry'
        h()
        return 'ok'

    def value(self, f):
        self.count += 1
        if f == 'f':
            return self.count
        if f == 'g':
            return [(self.count, 0, 0)]
        return [Proto()]

    def do_change(self, op):
        o, f = self.nodes[op['m']], op['f']
        if f == 'l' and op['how'] == 'inplace':
            getattr(o, f).append(Proto())
        elif op['how'] == 'attr':
            setattr(o, f, self.value(f))
        else:
            getattr(Proto, f).fset(o, self.value(f))
        return 'ok'

    def do_bad(self, op):
        setattr(self.nodes[op['m']], op['f'], {'f': 'x', 'g': [1], 'l': 5}[op['f']])
        return 'ok'

    def do_quiet(self, op):
        getattr(Proto, op['f']).fset(self.nodes[op['m']], self.value(op['f']), notify=0)
        return 'ok'

    def do_read(self, op):
        getattr(self.nodes[op['m']], op['f'])
        return 'ok'

    def do_del(self, op):
        delattr(self.nodes[op['m']], op['f'])
        return 'ok'

    def do_routed(self, op):
        source = Proto()
        r = route.ROUTE(source=source, sourceField=op['f'], destination=self.nodes[op['m']],
                        destinationField=op['f'])
        setattr(source, op['f'], self.value(op['f']))
        # the route goes away with its source
        return 'ok'

    def do_die(self, op):
        n = op['m']
        if self.cycle:
            self.nodes[n].__dict__.pop('_me', None)
            self.nodes[n].__dict__['_again'] = self.nodes[n]
            del self.nodes[n]
            gc.collect()
        else:
            del self.nodes[n]
        if self.refs[n]() is not None:
            gc.collect()
        return 'ok'

    def do_born(self, op):
        self.birth(op['m'])
        return 'ok'

    def gen(self, rng):
        live = sorted(self.nodes)
        dead = [n for n in self.names if n not in self.nodes]
        k = rng.choice(['hold'] * 4 + ['set', 'depend', 'depend', 'depend', 'dependobj', 'clear', 'drop',
                        'change', 'change', 'change', 'bad', 'quiet', 'read', 'del', 'routed', 'die', 'born', 'born'])
        if dead and (k == 'born' or not live):
            return dict(k='born', m=rng.choice(dead))
        if k == 'born':
            k = 'hold'
        n, m, f = rng.choice(live), rng.choice(live), rng.choice('fgl')
        c, q = rng.choice(sorted(self.caches)), rng.choice(KEYS)
        if k in ('hold', 'set'):
            return dict(k=k, c=c, n=n, q=q, v=rng.choice('vw'))
        if k == 'depend':
            return dict(k=k, c=c, n=n, q=q, m=m, f=f)
        if k == 'dependobj':
            return dict(k=k, c=c, n=n, q=q, m=m)
        if k in ('clear', 'drop'):
            return dict(k=k, c=c, n=n, q=q)
        if k == 'change':
            return dict(k=k, m=m, f=f, how=rng.choice(['attr', 'fset', 'inplace']))
        if k in ('quiet', 'routed') and f == 'l':
            f = 'f'
        if k == 'die':
            return dict(k=k, m=m)
        return dict(k=k, m=m, f=f)
