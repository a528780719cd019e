"""Routes and event ports: the real side of spec/Routes.tla"""
import gc, types
from vrml import field, node, route
from vrml import fieldtypes  # registers the types
from pydispatch import dispatcher

TYPES = dict(int='SFInt32', float='SFFloat', str='SFString', bool='SFBool', list='MFString')
DEFAULTS = dict(int=0, float=0.0, str='', bool=0, list=list)
PORTS = {
    'Small': {'A.i': 'int', 'B.f': 'float', 'C.e': 'handled'},
    'Other': {'A.s': 'str', 'B.l': 'list', 'B.i': 'int'},
    'Event': {'A.h': 'handled', 'A.e': 'event', 'B.h': 'handled'},
    'Large': {'A.i': 'int', 'B.f': 'float', 'B.s': 'str', 'C.e': 'handled'},
    'Trace': {'A.i': 'int', 'A.s': 'str', 'A.e': 'event', 'B.f': 'float', 'B.l': 'list', 'B.h': 'handled',
              'C.i': 'int', 'C.s': 'str', 'C.b': 'bool', 'C.h': 'handled', 'D.f': 'float', 'D.h': 'event'},
}
ORDER = {
    'Trace': ['A.i', 'A.s', 'A.e', 'B.f', 'B.l', 'B.h', 'C.i', 'C.s', 'C.b', 'C.h', 'D.f', 'D.h'],
    'Small': ['A.i', 'B.f', 'C.e'], 'Other': ['A.s', 'B.l', 'B.i'], 'Event': ['A.h', 'A.e', 'B.h'], 'Large': ['A.i', 'B.f', 'B.s', 'C.e'],
}
LONG = [c + '.' + f for c in 'ABCDEFGHIJKL' for f in 'if']
PORTS['Long'] = dict((p, dict(i='int', f='float')[p[2]]) for p in LONG)
ORDER['Long'] = LONG
# nodes of the same prototype (the others have one each)
SAME = {'Long': ['ABCDEF'], 'Event': ['AB'], 'Trace': ['AC', 'BD']}


def raw(label, n):
    """A value from its label, in some spelling"""
    k, t = label[0], label[1:]
    if k == 'i':
        return int(t)
    if k == 'f':
        return float(t)
    if k == 's':
        return t
    items = [x for x in t[1:-1].split(',') if x]
    return items


def label(v):
    if isinstance(v, bool):
        return 'bool %s' % v
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, float):
        return 'f%r' % v
    if isinstance(v, str):
        return 's' + v
    if type(v) is list and all(type(x) is str for x in v):
        return 'l[%s]' % (','.join(v) or ("''" if v else ''))
    return 'unknown %s %r' % (type(v), v)


class Driver(object):
    def __init__(self, config):
        self.log = []

    def cleanup(self):
        self.nodes = {}
        self.routes = []
        self.watched = []

    def reset(self, ident, params, rng=None):
        which = params.get('ports', 'Small')
        self.kinds = PORTS[which]
        self.order = ORDER[which]
        self.count = ident
        self.ports = {}
        self.nodes = {}
        self.routes = []
        self.watched = []
        self.log = []
        self.made = []
        self.meddle = None
        self.storable = None
        log = self.log
        groups = SAME.get(which, [])
        names = sorted(set(p.split('.')[0] for p in self.kinds))
        for group in groups + [n for n in names if not any(n in g for g in groups)]:
            fields = {}
            handled = []
            for p, kind in sorted(self.kinds.items()):
                n, f = p.split('.')
                if n not in group:
                    continue
                if f not in fields:
                    if kind in TYPES:
                        fields[f] = field.newField(f, TYPES[kind], 1, DEFAULTS[kind])
                    else:
                        fields[f] = field.newEvent(f, ['SFInt32', 'SFString', 'MFString', 'SFTime'][ident % 4], ident % 2)
                if kind == 'handled':
                    handled.append(p)
                self.ports[p] = (n, fields[f])
            cls = node.prototype('Proto' + group, list(fields.values()), baseClasses=(node.Node,))
            for name in group:
                self.nodes[name] = cls()
            for p in handled:
                n, f = p.split('.')
                if ident % 3 == 0 or any(self.kinds.get(m + '.' + f) == 'event' for m in group):
                    # a handler of that node alone
                    setattr(self.nodes[n], 'on_' + f, types.MethodType(self.handler(f, ident), self.nodes[n]))
                else:
                    setattr(cls, 'on_' + f, self.handler(f, ident))
            for name in group:
                # another node of the same kind, which nothing ever happens to
                self.nodes['other ' + name] = cls()
        for p in sorted(self.ports):
            self.watch(p)

    def handler(self, f, ident):
        def handle(obj, value):
            p = [n for n, x in self.nodes.items() if x is obj]
            p = p[0] + '.' + f if p else ''
            # the handler of a node on which it must not happen is heard of with the first port
            self.log.append((p, 'handler ' + label(value)) if p in self.ports else (self.order[0], 'handler of %r' % p))
            if value == 'x':
                raise ValueError('not x')
        if ident % 2:
            def with_event(self, value, event):
                handle(self, value)
            return with_event
        return lambda self, value: handle(self, value)

    def watch(self, p):
        name, fo = self.ports[p]

        def heard(signal, sender, value=None):
            how = signal[0]
            if how == 'del':
                self.log.append((p, 'del'))
            else:
                self.log.append((p, '%s %s now %s' % (how, label(value), self.peek(p))))
                if self.meddle and self.meddle[0] == p:
                    q, v = self.meddle[1:]
                    if q == p:
                        fo.fset(sender, raw(v, 0), notify=0)
                    elif not self.answered:
                        self.answered = True
                        name, other = self.ports[q]
                        setattr(self.nodes[name], other.name, raw(v, 0))

        def wrong(signal, sender, value=None):
            self.log.append((p, '%s heard for another node' % (signal,)))
        for how in ('set', 'del', 'route'):
            fo.watch(self.nodes[name], heard, (how, fo))
            fo.watch(self.nodes['other ' + name], wrong, (how, fo))
        self.watched += [heard, wrong]

    def peek(self, p, name=None):
        n, fo = self.ports[p]
        d = self.nodes[name or n].__dict__
        if fo.name in d:
            return label(d[fo.name])
        if self.kinds[p] in TYPES:
            return label(fo.coerce(fo.getDefault()))
        return '-'

    def snap(self):
        out = []
        for p in self.order:
            text = '%s=%s' % (p, self.peek(p))
            n, fo = self.ports[p]
            if fo.name in self.nodes['other ' + n].__dict__:
                text += ' and another node has ' + self.peek(p, 'other ' + n)
            out.append(text)
        return out

    def do(self, op):
        del self.log[:]
        self.answered = False
        self.count += 1
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (ValueError, AttributeError) as err:
            ret = 'ValueError' if isinstance(err, ValueError) else 'AttributeError'
        notes = []
        for p in self.order:
            notes += ['%s: %s' % x for x in self.log if x[0] == p]
        return {'ret': ret, 'notes': notes, 'snap': self.snap()}

    def do_set(self, op):
        name, fo = self.ports[op['p']]
        obj, value = self.nodes[name], raw(op['v'], self.count)
        if op['how'] == 'attr':
            setattr(obj, fo.name, value)
        elif op['how'] == 'field':
            if self.kinds[op['p']] in TYPES:
                fo.fset(obj, value)
            else:
                fo.__set__(obj, value)
        elif self.kinds[op['p']] in TYPES:
            fo.fset(obj, value, notify=0)
        else:
            fo.__set__(obj, value, notify=0)
        return 'ok'

    def do_del(self, op):
        name, fo = self.ports[op['p']]
        if self.count % 2:
            delattr(self.nodes[name], fo.name)
        else:
            fo.fdel(self.nodes[name])
        return 'ok'

    def do_get(self, op):
        name, fo = self.ports[op['p']]
        if self.kinds[op['p']] in TYPES:
            return self.peek(op['p'])
        return label(getattr(self.nodes[name], fo.name))

    def spell(self, p, end):
        """A name of the port, as a route may say it"""
        name, fo = self.ports[p]
        text = fo.name
        if self.count % 3 == 1:
            text = 'set_' + text if end == 'd' else text + '_changed'
        return self.nodes[name], text

    def do_route(self, op):
        cls = route.ROUTE if op['kind'] == 'R' else route.IS
        s, sf = self.spell(op['s'], 's')
        d, df = self.spell(op['d'], 'd')
        if self.count % 2:
            r = cls(s, sf, d, df)
        else:
            r = cls(source=s, sourceField=sf, destination=d, destinationField=df)
        self.routes.append(r)
        return 'ok'

    def do_drop(self, op):
        del self.routes[op['i'] - 1]
        gc.collect(0)
        return 'ok'

    def do_meddle(self, op):
        self.meddle = (op['p'], op['q'], op['v'])
        return 'ok'

    def do_retarget(self, op):
        r = self.routes[op['i'] - 1]
        r.destination, r.destinationField = self.spell(op['d'], 'd')
        return 'ok'

    def gen(self, rng):
        ports = self.order
        n = len(self.made)
        k = rng.choice(['set'] * 8 + ['get', 'route', 'route', 'drop', 'retarget', 'meddle'])
        long = ports is LONG
        if long and n < 20 and rng.random() < .8:
            k = 'route'
        if k == 'route' and n >= (30 if long else 8) or k in ('drop', 'retarget') and not n:
            k = 'set'
        if self.storable and rng.random() < .15:
            p, self.storable = self.storable, None
            return dict(k='del', p=p)
        self.storable = None
        p = rng.choice(ports)
        if k == 'set':
            if n and rng.random() < .7:
                p = rng.choice(self.made[:3] if long else self.made)[1]
            v = rng.choice(['i0', 'i1', 'i2', 'f0.0', 'f1.0', 'f1.5', 's', 'sx', 's1', 's1.5',
                            'l[]', 'l[x]', 'l[1]', 'l[x,1]'])
            if v[0] in dict(int='if', float='if', str='ifsl', bool='ifsl', list='sl').get(self.kinds[p], ''):
                self.storable = p
            return dict(k=k, p=p, v=v, how=rng.choice(['attr', 'attr', 'field', 'quiet']))
        if k == 'meddle':
            q = rng.choice([p, rng.choice(ports)])
            if rng.random() < .3 or p == q and self.kinds[p] not in TYPES:
                return dict(k=k, p='-', q='-', v='-')
            return dict(k=k, p=p, q=q, v=dict(int='i2', float='f1.5', str='s1', bool='i1', list='l[x]').get(self.kinds[q], 's1.5'))
        if k == 'get':
            return dict(k=k, p=p)
        if k == 'route':
            kind = rng.choice(['R', 'R', 'R', 'IS'])
            s, d = rng.choice(ports), rng.choice(ports)
            if long and n and rng.random() < .9:
                # go on where the last one ended
                s = self.made[-1][2]
                d = rng.choice([x for x in ports if not any(x in m for m in self.made)] or ports)
            if kind == 'IS':
                d = rng.choice([x for x in ports if x[0] != s[0]])
            self.made.append((kind, s, d))
            return dict(k=k, kind=kind, s=s, d=d)
        if k == 'retarget':
            plain = [i for i in range(n) if self.made[i][0] == 'R']
            if not plain:
                return dict(k='get', p=p)
            i, d = rng.choice(plain), rng.choice(ports)
            self.made[i] = ('R', self.made[i][1], d)
            return dict(k=k, i=i + 1, d=d)
        i = rng.randint(1, n)
        del self.made[i - 1]
        return dict(k=k, i=i)
