"""Node-list fields: the real side of spec/NodeLists.tla"""
from vrml import olist, node, field, protonamespace
from vrml.vrml97 import basenamespaces, parser, parseprocessor, basenodes
from pydispatch import dispatcher
from drivers import olist as olistdriver

NONE = 99


class Child(node.Node):
    """A child, named by its label"""


def child(label):
    c = Child()
    c.__dict__['_label'] = label
    return c


def label(o):
    if not isinstance(o, node.Node):
        return 'unknown %r' % (o,)
    return o.__dict__.get('_label') or node.Node.DEF.fget(o) or 'unlabelled'


class Driver(object):
    def __init__(self, config):
        dispatcher.connect(self.receive, signal=dispatcher.Any, sender=dispatcher.Any)
        self.nodes = {}
        self.active = False

    def cleanup(self):
        self.active = False
        self.nodes = {}
        self.held = {}

    def reset(self, ident, params, rng=None):
        self.count = ident
        self.fieldnames = {'FieldsOne': 'b', 'FieldsTwo': 'ab', 'FieldsThree': 'abc'}[params.get('fields')]
        self.default = child('d1')
        fields = [field.newField(f, 'MFNode', 1, [self.default] if f == 'b' else []) for f in self.fieldnames]
        self.proto = node.prototype('P', fields, baseClasses=(node.Node,))
        self.fields = dict((f.name, f) for f in fields)
        self.byid = dict((id(f), f.name) for f in fields)
        self.kids = dict((n, child(n)) for n in ('c1', 'c2', 'c3'))
        self.nodes = dict(('n%d' % (i + 1), self.proto()) for i in range(params.get('nodes', 2)))
        self.held = {}
        self.log = []
        self.active = True

    def stored(self, n, f):
        """Contents without reading the field"""
        obj, fo = self.nodes[n], self.fields[f]
        if not fo.fhas(obj):
            return None
        return [label(x) for x in fo.fget(obj)]

    def all(self):
        return dict(((n, f), self.stored(n, f)) for n in self.nodes for f in self.fields)

    def receive(self, signal=None, sender=None, **named):
        if not self.active or not (isinstance(signal, tuple) and id(signal[1]) in self.byid):
            return
        for n, o in self.nodes.items():
            if o is sender:
                break
        else:
            return  # a node under construction
        f = self.byid[id(signal[1])]
        now = self.stored(n, f)
        if signal[0] == 'del':
            self.log.append((n, f, 'deleted' if now is None else 'deleted but %s' % now))
            return
        value = named.get('value')
        try:
            value = [label(x) for x in value]
        except TypeError:
            value = ['unknown %r' % (value,)]
        text = 'told ' + ','.join(value)
        if signal[0] != 'set':
            text = signal[0] + ' ' + text
        if value != now:
            text += ' while %s' % now
        self.log.append((n, f, text))

    def members(self, stored, f):
        if stored is None:
            return set(['d1'] if f == 'b' else [])
        return set(stored)

    def do(self, op):
        self.log = []
        before = self.all()
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (IndexError, ValueError, TypeError, AttributeError) as err:
            ret = type(err).__name__
        after = self.all()
        notes = []
        target = (op.get('n'), op.get('f'))
        if op['k'] in ('new', 'parse', 'copy'):
            target = None
        last = {}
        deleted = 0
        for n, f, text in self.log:
            if (n, f) != target:
                notes.append('%s.%s %s (of another)' % (n, f, text))
            elif text.startswith('deleted'):
                notes.append('%s.%s %s' % (n, f, text))
            else:
                last[(n, f)] = '%s.%s %s' % (n, f, text)
        if target and op['k'] != 'del' and self.members(before[target], target[1]) != self.members(after[target], target[1]):
            notes.append(last.get(target, 'silence'))
        snap = []
        for n in sorted(self.nodes):
            for f in sorted(self.fields):
                c = after[(n, f)]
                snap.append('%s.%s=%s' % (n, f, '-' if c is None else ','.join(c)))
        return {'ret': ret, 'snap': snap, 'notes': notes}

    def do_read(self, op):
        return ','.join(label(x) for x in getattr(self.nodes[op['n']], op['f']))

    def do_assign(self, op):
        v = [self.kids[x] for x in op['v']]
        self.count += 1
        kind = self.count % 4
        if kind == 1:
            v = tuple(v)
        elif kind == 2:
            v = olist.OList(v)
        elif kind == 3 and len(v) == 1:
            v = v[0]
        if self.count % 3:
            setattr(self.nodes[op['n']], op['f'], v)
        else:
            self.fields[op['f']].fset(self.nodes[op['n']], v)
        return 'ok'

    def do_bad(self, op):
        self.count += 1
        bad = [5, [5], 'text', [self.kids['c1'], 'text'], {'a': 1}, [self.kids['c1'], [self.kids['c1'], self.kids['c2']]]]
        setattr(self.nodes[op['n']], op['f'], bad[self.count % len(bad)])
        return 'ok'

    def do_from(self, op):
        setattr(self.nodes[op['n']], op['f'], getattr(self.nodes[op['m']], op['g']))
        return 'ok'

    def do_del(self, op):
        self.count += 1
        if self.count % 2:
            delattr(self.nodes[op['n']], op['f'])
        else:
            self.fields[op['f']].fdel(self.nodes[op['n']])
        return 'ok'

    def do_change(self, op):
        obj = self.nodes[op['n']]
        if op['via'] == 'aug':
            setattr(self, '_tmp', None)
            v = [self.kids[x] for x in op['o']['v']]
            l = getattr(obj, op['f'])
            l += v
            setattr(obj, op['f'], l)
            return 'ok'
        if op['via'] == 'held' and self.fields[op['f']].fhas(obj):
            l = self.fields[op['f']].fget(obj)
            # the very list the field holds
        else:
            l = getattr(obj, op['f'])
        d = olistdriver.Driver.__new__(olistdriver.Driver)
        d.list, d.kids, d.count = l, self.kids, self.count
        d.names = {}
        ret = getattr(d, 'do_' + op['o']['k'])(op['o'])
        self.count = d.count + 1
        return 'ok'

    def do_new(self, op):
        v = dict((f, [self.kids[x] for x in op['vals'][f]]) for f in op['vals'])
        self.nodes[op['n']] = self.proto(**v)
        return 'ok'

    def do_copy(self, op):
        new = self.nodes[op['m']].copy()
        for f in self.fields.values():
            if f.fhas(new):
                old = f.fget(self.nodes[op['m']])
                for o, c in zip(old, f.fget(new)):
                    if o is not c:
                        l = label(o)
                        c.__dict__['_label'] = l if l.startswith('k') else 'k' + l
        self.nodes[op['n']] = new
        return 'ok'

    def do_parse(self, op):
        ns = basenamespaces.basePrototypes.copy()
        ns['P'] = self.proto
        ns['Child'] = Child
        processor = parseprocessor.ParseProcessor(basePrototypes=ns)
        ok, result, n = parser.buildParser().parse(
            '#VRML V2.0 utf8\nP { %s [ DEF q1 Child {} DEF q2 Child {} ] }' % op['f'], processor=processor)
        sg = result[1]
        self.keep = sg
        self.nodes[op['n']] = sg.children[0]
        for f in self.fields:
            getattr(sg.children[0], f)
        return 'ok'

    def gen(self, rng):
        n, m = rng.choice(sorted(self.nodes)), rng.choice(sorted(self.nodes))
        f, g = rng.choice(sorted(self.fields)), rng.choice(sorted(self.fields))
        k = rng.choice(['read', 'assign', 'assign', 'bad', 'from', 'del', 'new', 'parse', 'copy'] + ['change'] * 8)
        x = rng.choice(sorted(self.kids))
        v = [rng.choice(sorted(self.kids)) for q in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if k in ('read', 'bad', 'del', 'parse'):
            return dict(k=k, n=n, f=f)
        if k == 'assign':
            return dict(k=k, n=n, f=f, v=v)
        if k == 'from':
            return dict(k=k, n=n, f=f, m=m, g=g)
        if k == 'new':
            return dict(k=k, n=n, vals=dict((q, [rng.choice(sorted(self.kids))]) for q in sorted(self.fields)
                                            if q == 'a' or rng.random() < .5))
        if k == 'copy':
            return dict(k=k, n=n, m=m) if n != m else dict(k='read', n=n, f=f)
        o = rng.choice(['append', 'insert', 'extend', 'iadd', 'imul', 'clear', 'reverse', 'pop', 'remove', 'del', 'put',
                        'dslice', 'pslice'])
        i, j = rng.randint(-4, 3), rng.randint(-4, 3)
        s = rng.choice([NONE, NONE, NONE, 1, 2, -1])
        if o in ('append', 'remove'):
            c = dict(k=o, x=x)
        elif o in ('insert', 'put'):
            c = dict(k=o, x=x, i=i)
        elif o in ('extend', 'iadd'):
            c = dict(k=o, v=v[:2])
        elif o == 'imul':
            c = dict(k=o, i=rng.choice([0, 1, 2]))
        elif o in ('clear', 'reverse'):
            c = dict(k=o)
        elif o in ('pop', 'del'):
            c = dict(k=o, i=i)
        elif o == 'dslice':
            c = dict(k=o, i=i, j=j, s=s)
        else:
            c = dict(k=o, i=i, j=j, s=s, v=v)
        via = rng.choice(['get', 'held'])
        if o == 'iadd' and rng.random() < .5:
            via = 'aug'
        return dict(k='change', n=n, f=f, o=c, via=via)
