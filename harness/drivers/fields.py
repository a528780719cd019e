"""Field storage and notification: the real side of spec/Fields.tla"""
import numpy
from vrml import field, node, protofunctions
from vrml import fieldtypes  # registers the types
from pydispatch import dispatcher

A = numpy.array


def canon(v):
    """The value with its exact type, as text"""
    if isinstance(v, numpy.ndarray):
        return 'array %s %s %s' % (v.dtype.char, v.shape, v.tolist())
    if isinstance(v, list):
        return 'list [%s]' % ', '.join(canon(x) for x in v)
    if isinstance(v, node.Node):
        return 'node %s' % id(v)
    return '%s %r' % (type(v).__name__, v)


def _mut_array(v):
    v[...] = 99


def _mut_rows(v):
    v[0] = 99


def _mut_list(v):
    v.append('!')


def f64(x):
    return canon(A(x, 'd'))


def f32(x):
    return canon(A(x, 'f'))


def i32(x):
    return canon(A(x, 'i'))


def u32(x):
    return canon(A(x, 'I'))


NA, NB, ND = node.Node(), node.Node(), node.Node()

# type: default, a, b (each input, canonical), rejected inputs
SCALAR = {
    'SFInt32': [(7, 'int 7'), ('12', 'int 12'), (3.75, 'int 3'), ['x', None, [1, 2], {}, float('inf')]],
    'SFUInt32': [(7, 'int 7'), ('12', 'int 12'), (3.75, 'int 3'), ['x', None, [1, 2], float('nan')]],
    'SFFloat': [(7, 'float 7.0'), ('1.5', 'float 1.5'), (A(2, 'i'), 'float 2.0'), ['x', None, [1, 2], 10**400]],
    'SFTime': [(7.5, 'float 7.5'), (2, 'float 2.0'), ('1e3', 'float 1000.0'), ['x', None, (1,)]],
    'SFString': [('d', "str 'd'"), (b'by', "str 'by'"), (('x', 'y'), "str 'xy'"), [b'\xff', [1, 2]]],
    'SFBool': [(0, 'int 0'), ('true', 'int 1'), (5, 'int 1'), None],
    'SFNode': [(ND, canon(ND)), (NA, canon(NA)), ([NB], canon(NB)), ['text', 5, {}, [1, 2]]],
}
MUTABLE = {
    'SFVec2f': [((1, 2), f32([1, 2])), ([3, 4.5], f32([3, 4.5])), (A([5, 6], 'i'), f32([5, 6])), [[1], [1, 2, 3], 'a b']],
    'SFVec3f': [((1, 2, 3), f32([1, 2, 3])), ([3, 4.5, 6], f32([3, 4.5, 6])), (A([5, 6, 7], 'f'), f32([5, 6, 7])), [[1, 2], 'x', [1, 2, 3, 4], {}]],
    'SFVec4f': [((1, 2, 3, 4), f32([1, 2, 3, 4])), ([3, 4.5, 6, 1], f32([3, 4.5, 6, 1])), (A([5, 6, 7, 8]), f32([5, 6, 7, 8])), [[1, 2], 'x']],
    'SFRotation': [((0, 0, 1, 0), f32([0, 0, 1, 0])), ([1, 0, 0, .5], f32([1, 0, 0, .5])), (A([0, 1, 0, 2]), f32([0, 1, 0, 2])), [[1, 2, 3], 'x']],
    'SFColor': [((0, 0, 1), f32([0, 0, 1])), ([.25, .5, 0], f32([.25, .5, 0])), ('red', f32([1, 0, 0])), [[1, 2], 'nocolour', [1, 2, 3, 4]]],
    'MFString': [(['d'], "list [str 'd']"), ('x', "list [str 'x']"), (('y', b'z'), "list [str 'y', str 'z']"), [5, [b'\xff'], None]],
    'MFInt32': [([1, 2], i32([1, 2])), ((3,), i32([3])), (A([4.0, 5.0]), i32([4, 5])), ['x', [1, 'x'], [None]]],
    'MFFloat': [([1, 2], f64([1, 2])), ((3,), f64([3])), (A([4, 5], 'i'), f64([4, 5])), ['x', [1, 'x']]],
    'MFTime': [([1, 2], f64([1, 2])), ((3,), f64([3])), ('4.5', f64([4.5])), ['x', [1, 'x']]],
    'MFVec2f': [([[1, 2]], f32([[1, 2]])), ([3, 4, 5, 6], f32([[3, 4], [5, 6]])), (A([[7, 8]], 'i'), f32([[7, 8]])), [[1], 'x', [1, 2, 3]]],
    'SFVec3d': [((1, 2, 3), f64([1, 2, 3])), ([3, 4.5, 6], f64([3, 4.5, 6])), (A([5, 6, 7], 'f'), f64([5, 6, 7])), [[1, 2], 'x', {}]],
    'MFVec3d': [([[1, 2, 3]], f64([[1, 2, 3]])), ([3, 4, 5, 6, 7, 8], f64([[3, 4, 5], [6, 7, 8]])), (A([[7, 8, 9]], 'f'), f64([[7, 8, 9]])), [[1, 2], 'x']],
    'MFVec3f': [([[1, 2, 3]], f32([[1, 2, 3]])), ([3, 4, 5, 6, 7, 8], f32([[3, 4, 5], [6, 7, 8]])), (A([[7, 8, 9]], 'f'), f32([[7, 8, 9]])), [[1, 2], 'x']],
    'MFColor': [([[1, 0, 0]], f32([[1, 0, 0]])), ([0, 1, 2], f32([[0, 1, 1]])), (A([[0, 0, .5]], 'd'), f32([[0, 0, .5]])), [[1, 2], ['nocolour']]],
    'MFRotation': [([[0, 0, 1, 0]], f64([[0, 0, 1, 0]])), ([0, 1, 0, 2], f64([[0, 1, 0, 2]])), (A([[1, 0, 0, 3]]), f64([[1, 0, 0, 3]])), [[1, 2, 3], 'x']],
    'SFImage': [([1, 1, 1, 0], u32([1, 1, 1, 0])), ((0, 0, 0), u32([0, 0, 0])), (A([2, 1, 1, 5, 6]), u32([2, 1, 1, 5, 6])), ['x', [1, 'x']]],
}
# others, with values which count as false and defaults which are alike for all types
SCALAR2 = {
    'SFInt32': [(3.75, 'int 3'), (0, 'int 0'), ('-1', 'int -1'), ['x']],
    'SFUInt32': [(3.75, 'int 3'), (0, 'int 0'), (1.0, 'int 1'), [None]],
    'SFFloat': [(3.75, 'float 3.75'), (0, 'float 0.0'), (-.5, 'float -0.5'), [[]]],
    'SFTime': [(3.75, 'float 3.75'), (0.0, 'float 0.0'), (1, 'float 1.0'), ['']],
    'SFString': [(3.75, "str '3.75'"), ((), "str ''"), (0, "str '0'"), [[1, 2]]],
    'SFNode': [(ND, canon(ND)), (None, canon(node.NULL)), (NB, canon(NB)), [0, '', [], False]],
}
SCALAR3 = {
    'SFInt32': [(0, 'int 0'), (True, 'int 1'), (-2.5, 'int -2'), ['']],
    'SFFloat': [(0, 'float 0.0'), (True, 'float 1.0'), ('-7', 'float -7.0'), ['']],
    'SFString': [(0, "str '0'"), ('', "str ''"), (['a b'], "str 'a b'"), [[None, 1]]],
    'SFNode': [(node.NULL, canon(node.NULL)), (NA, canon(NA)), ((NB,), canon(NB)), [0, '', [], False]],
}
MUTABLE2 = {
    'SFVec3f': [((0, 0, 0), f32([0, 0, 0])), ([0, 0, 1], f32([0, 0, 1])), (A([-1, 0, 0], 'f'), f32([-1, 0, 0])), [[]]],
    'SFVec2f': [([1, 1], f32([1, 1])), ([0, 0], f32([0, 0])), (A([-1, 0], 'd'), f32([-1, 0])), [[]]],
    'SFColor': [((0, 0, 0), f32([0, 0, 0])), ('white', f32([1, 1, 1])), ('#ff0000', f32([1, 0, 0])), [[]]],
    'MFString': [(['d'], "list [str 'd']"), ([], 'list []'), ([''], "list [str '']"), [0]],
    'MFInt32': [([0], i32([0])), ([9], i32([9])), ([0, 0], i32([0, 0])), ['x']],
    'MFFloat': [([0.0], f64([0])), ([9], f64([9])), ([0, 0], f64([0, 0])), ['x']],
    'MFVec3f': [([[0, 0, 0]], f32([[0, 0, 0]])), ([1, 0, 0], f32([[1, 0, 0]])), ([[0, 0, 0], [0, 0, 0]], f32([[0, 0, 0], [0, 0, 0]])), [[1]]],
    'MFColor': [([[0, 0, 0]], f32([[0, 0, 0]])), (['red'], f32([[1, 0, 0]])), ([[0, 0, 0], [0, 0, 0]], f32([[0, 0, 0], [0, 0, 0]])), [[1]]],
}
SCALARS = sorted(SCALAR)
MUTABLES = sorted(MUTABLE)


class Kind(object):
    """One field type with its palette of values"""

    def __init__(self, typename, which=0):
        self.typename = typename
        self.mutable = typename in MUTABLE
        palettes = [t[typename] for t in ((MUTABLE, MUTABLE2) if self.mutable else (SCALAR, SCALAR2, SCALAR3)) if typename in t]
        self.palette = d, a, b, bad = palettes[which % len(palettes)]
        self.inputs = {'d': d[0], 'a': a[0], 'b': b[0]}
        self.bad = bad or []
        self.labels = {}
        for l, v in zip('bad', (b, a, d)):
            self.labels[v[1]] = l
        if self.mutable:
            for l in 'dab':
                self.labels[self._mutated(l)] = l + '!'

    def _mutated(self, label):
        # the canonical text after the reader's change
        d, a, b, bad = self.palette
        text = dict(d=d, a=a, b=b)[label][1]
        if text.startswith('list'):
            return text[:-1] + (", str '!']" if text != 'list []' else "str '!']")
        head, shape = text.split(' (')[0], text[text.index('('):text.index(')') + 1]
        code = head.split()[1]
        shp = tuple(int(x) for x in shape.strip('()').split(',') if x.strip())
        # recognisable, whatever it was
        v = numpy.full(shp, 1, code)
        self.mutate(v, label)
        return canon(v)

    def mutate(self, value, label):
        if isinstance(value, list):
            if len(label) == 1:
                value.append('!')
        else:
            # acceptable to all types, and unlike any palette value
            value[...] = 99 if value.dtype.char in 'iI' else .625
            which = 1 + 'dab'.index(label[0])
            value.ravel()[0] = which if value.dtype.char in 'iI' else which / 16.

    def label(self, value):
        text = canon(value)
        if self.typename == 'SFBool' and text == 'int 1':
            return 'a'
        return self.labels.get(text, 'unknown ' + text)


class Driver(object):
    limit = 20

    def __init__(self, config):
        dispatcher.connect(self.receive, signal=dispatcher.Any, sender=dispatcher.Any)
        self.log = []
        self.nodes = {}
        self.fields = {}

    def cleanup(self):
        self.nodes = {}
        self.fields = {}
        self.watched = []

    def reset(self, ident, params, rng=None):
        # which types the fields have depends on the behaviour
        count = params.get('fields', 2)
        if rng is None:
            h = ident * 7919 + 13
        else:
            h = rng.randrange(1 << 30)
        self.kinds = {}
        for k in range(count):
            names = MUTABLES if k % 2 else [x for x in SCALARS if x != 'SFBool']
            self.kinds['f%d' % (k + 1)] = Kind(names[h % len(names)], h // len(names))
            h = h // len(names) + ident * 31
        self.byfield = {}
        self.fields = {}
        self.answer = None
        count = params.get('nodes', 2)
        names = ['n%d' % (k + 1) for k in range(count)]
        style = ident % 5
        if style == 3:
            # the last node is one of another prototype with fields of the same names
            one, two = self.declare(ident, 0), self.declare(ident + 1, 1)
            self.protos = dict((n, two if n == names[-1] else one) for n in names)
        else:
            one = self.declare(ident, style)
            self.protos = dict((n, one) for n in names)
        self.nodes = {}
        self.pending = None
        self.badcount = ident
        for k in range(params.get('nodes', 2)):
            self.nodes['n%d' % (k + 1)] = self.protos['n%d' % (k + 1)]()
        # watchers of one node and field each
        self.targeted = {}
        self.log = []
        self.watched = []
        for n in self.nodes:
            self.watch(n)

    def declare(self, ident, style):
        """A prototype with the fields"""
        fields = []
        for name, kind in sorted(self.kinds.items()):
            default = kind.inputs['d']
            if (ident // 5) % 2 and kind.typename not in ('SFNode', 'MFNode'):
                default = lambda default=default: default
            f = field.newField(name, kind.typename, 1, default)
            fields.append(f)
            self.byfield[id(f)] = name
        if style == 0:
            proto = node.prototype('P', fields, baseClasses=(node.Node,))
        elif style == 1:
            # declared on a base class and added later
            base = type('B', (node.Node,), {fields[0].name: fields[0]})
            proto = type('P', (base,), {'PROTO': 'P'})
            for f in fields[1:]:
                protofunctions.addField(proto, f)
        elif style == 4:
            # declared anew, with another default
            base = type('B', (node.Node,), dict((f.name, field.newField(f.name, self.kinds[f.name].typename, 1, self.kinds[f.name].inputs['b']))
                                                for f in fields))
            proto = type('P', (base,), dict((f.name, f) for f in fields))
            self.base = base()
        else:
            proto = type('P', (node.Node,), dict((f.name, f) for f in fields))
        self.fields[proto] = dict((f.name, f) for f in fields)
        return proto

    def fieldof(self, n, fname):
        return self.fields[self.protos[n]][fname]

    def watch(self, n):
        for fname, f in self.fields[self.protos[n]].items():
            def specific(signal, sender, value=None, n=n, fname=fname, f=f):
                self.targeted[(n, fname)] = self.targeted.get((n, fname), 0) + 1
            self.watched.append(specific)
            f.watch(self.nodes[n], specific, ('set', f))
            f.watch(self.nodes[n], specific, ('del', f))

    # observation
    def peek(self, obj, fname):
        f = self.fields[type(obj)][fname]
        if f.fhas(obj):
            return self.kinds[fname].label(f.fget(obj))
        return '-'

    def name(self, obj):
        for n, o in self.nodes.items():
            if o is obj:
                return n
        return 'new'

    def receive(self, signal=None, sender=None, **named):
        if not (isinstance(signal, tuple) and id(signal[1]) in self.byfield):
            return
        fname = self.byfield[id(signal[1])]
        if signal[0] == 'del':
            value = 'None' if named.get('value') is None else 'not None'
        else:
            value = self.kinds[fname].label(named.get('value'))
        self.log.append('%s %s.%s %s now %s' % (
            signal[0], self.name(sender), fname, value, self.peek(sender, fname)))
        if self.byfield[id(signal[1])] != signal[1].name or signal[1] is not self.fields[type(sender)][fname]:
            self.log.append('told of the field of another prototype')
        if self.answer:
            m, g, w = self.answer
            self.answer = None
            setattr(self.nodes[m], g, self.value(g, w))

    def snap(self):
        out = []
        for n in sorted(self.nodes):
            for f in sorted(self.kinds):
                out.append('%s.%s=%s' % (n, f, self.peek(self.nodes[n], f)))
        for f in sorted(self.kinds):
            labels = set()
            for fields in self.fields.values():
                labels.add(self.kinds[f].label(fields[f].coerce(fields[f].getDefault())))
            out.append('default %s=%s' % (f, ' '.join(sorted(labels))))
        return out

    def bad(self, fname):
        choice = self.kinds[fname].bad
        self.badcount += 1
        return choice[self.badcount % len(choice)]

    def value(self, fname, v):
        if v == 'bad':
            return self.bad(fname)
        return self.kinds[fname].inputs[v]

    def do(self, op):
        del self.log[:]
        self.targeted = {}
        extra = []
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (ValueError, AttributeError) as err:
            ret = type(err).__name__
            if isinstance(err, ValueError):
                ret = 'ValueError'
        notes = list(self.log)
        # the watchers of exactly that node and field heard the same
        heard = {}
        for note in notes:
            who = note.split()[1]
            heard[who] = heard.get(who, 0) + 1
        if op['k'] != 'new':
            told = dict(('%s.%s' % k, c) for k, c in self.targeted.items())
            if told != heard:
                extra = ['watchers heard %s' % sorted(told.items())]
        return {'ret': ret, 'notes': notes + extra, 'snap': self.snap()}

    def do_set(self, op):
        obj, f = self.nodes[op['n']], self.fieldof(op['n'], op['f'])
        value = self.value(op['f'], op['v'])
        if op['how'] == 'attr':
            setattr(obj, f.name, value)
        elif op['how'] == 'fset':
            f.fset(obj, value)
        else:
            f.fset(obj, value, notify=0)
        return 'ok'

    def do_answered(self, op):
        self.answer = (op['m'], op['g'], op['w'])
        try:
            return (self.do_del if op['v'] == '-' else self.do_set)(op)
        finally:
            self.answer = None

    def do_copy(self, op):
        f = op['f']
        setattr(self.nodes[op['n']], f, getattr(self.nodes[op['m']], f))
        return 'ok'

    def do_get(self, op):
        obj, f = self.nodes[op['n']], self.fieldof(op['n'], op['f'])
        if op['how'] == 'attr':
            v = getattr(obj, f.name)
        else:
            v = f.fget(obj)
        return self.kinds[op['f']].label(v)

    def do_has(self, op):
        return '1' if self.fieldof(op['n'], op['f']).fhas(self.nodes[op['n']]) else '0'

    def do_del(self, op):
        obj, f = self.nodes[op['n']], self.fieldof(op['n'], op['f'])
        if op['how'] == 'attr':
            delattr(obj, f.name)
        elif op['how'] == 'fset':
            f.fdel(obj)
        else:
            f.fdel(obj, notify=0)
        return 'ok'

    def do_mut(self, op):
        kind = self.kinds[op['f']]
        v = getattr(self.nodes[op['n']], op['f'])
        kind.mutate(v, kind.label(v))
        return 'ok'

    def do_new(self, op):
        values = {}
        for f in sorted(op['vals']):
            if op['vals'][f] != '-':
                values[f] = self.value(f, op['vals'][f])
        new = self.protos[op['n']](**values)
        self.nodes[op['n']] = new
        self.watch(op['n'])
        return 'ok'

    # random behaviours
    def gen(self, rng):
        n, m = rng.choice(sorted(self.nodes)), rng.choice(sorted(self.nodes))
        f = rng.choice(sorted(self.kinds))
        k = rng.choice(['set'] * 4 + ['answered'] * 2 + ['copy', 'get', 'get', 'has', 'del', 'del', 'mut', 'new'])
        how = rng.choice(['attr', 'fset', 'quiet'])
        if k == 'set':
            return dict(k=k, n=n, f=f, v=rng.choice(['a', 'b', 'bad']), how=how)
        if k == 'answered':
            return dict(k=k, n=n, f=f, v=rng.choice(['a', 'b', 'bad', '-']), how=rng.choice(['attr', 'fset', 'quiet']),
                        m=m, g=rng.choice([f, rng.choice(sorted(self.kinds))]), w=rng.choice('ab'))
        if k == 'copy':
            return dict(k=k, n=n, m=m, f=f)
        if k == 'get':
            return dict(k=k, n=n, f=f, how=rng.choice(['attr', 'fget']))
        if k == 'has':
            return dict(k=k, n=n, f=f)
        if k == 'del':
            return dict(k=k, n=n, f=f, how=how)
        if k == 'mut':
            f = rng.choice([x for x in sorted(self.kinds) if self.kinds[x].mutable])
            return dict(k=k, n=n, f=f)
        return dict(k='new', n=n, vals=dict((x, rng.choice(['-', '-', 'a', 'b', 'bad'][:4 + (rng.random() < .2)]))
                                            for x in sorted(self.kinds)))
