"""Values stored in fields of each type: the real side of spec/Coerce.tla"""
import numpy
from vrml import field, node
from vrml import fieldtypes, csscolors  # registers the types

UNIT = 1020
TYPES = ['SFBool', 'SFInt32', 'SFUInt32', 'SFFloat', 'SFTime', 'SFString', 'MFString', 'MFInt32', 'MFUInt32',
         'SFImage', 'MFFloat', 'MFTime', 'MFFloat32', 'SFVec2f', 'SFVec3f', 'SFVec4f', 'SFRotation', 'SFColor',
         'SFVec2d', 'SFVec3d', 'SFVec4d', 'MFVec2f', 'MFVec3f', 'MFVec4f', 'MFColor', 'MFRotation', 'MFVec2d',
         'MFVec3d', 'MFVec4d', 'MFMatrix3f', 'MFMatrix4f', 'MFMatrix3d', 'MFMatrix4d', 'SFArray', 'SFArray32']
HUGE, OVER = 10 ** 12, 10 ** 400


def units(x, tolerance):
    """The number as text, in units"""
    if abs(x / 1e12 - 1) < 1e-6:
        return 'huge'
    n = round(x * UNIT) if abs(x) < 1e9 else None
    if n is None or abs(x * UNIT - n) > tolerance:
        return repr(x)
    return str(n)


def label(v):
    if isinstance(v, numpy.ndarray):
        tolerance = .06 if v.dtype.char == 'f' else 1e-6
        return '%s[%s]%s' % (v.dtype.char, ''.join('%s,' % k for k in v.shape),
                             ''.join(' ' + units(float(x), tolerance) for x in v.ravel().tolist()))
    if isinstance(v, bool):
        return 'bool %r' % v
    if type(v) is int:
        return 'int huge' if v == HUGE else 'int over' if v == OVER else 'int %d' % v
    if type(v) is float:
        return 'float ' + units(v, 1e-6)
    if type(v) is str:
        return "str '%s'" % v
    if type(v) is list and all(type(x) is str for x in v):
        return 'strs [%s]' % ' '.join("'%s'" % x for x in v)
    return '%s %r' % (type(v).__name__, v)


def build(v):
    t = v['t']
    if t == 'num':
        if v['w'] == 'float':
            return v['n'] / float(UNIT)
        assert v['n'] % UNIT == 0
        return bool(v['n']) if v['w'] == 'bool' else v['n'] // UNIT
    if t == 'huge':
        return HUGE
    if t == 'over':
        return OVER
    if t == 'text':
        return v['s']
    if t == 'bytes':
        return v['s'].encode('utf-8')
    if t == 'none':
        return None
    if t == 'node':
        return node.Node()
    if t == 'arr':
        a = numpy.array([n / float(UNIT) for n in v['nums']], 'd').reshape(v['shape']).astype(v['dtype'])
        if v['lay'] == 'T':
            return a.T.copy().T
        if a.ndim and v['lay'] == 'step':
            big = numpy.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
            big[..., ::2] = a
            return big[..., ::2]
        if a.ndim and v['lay'] == 'back':
            return a[::-1].copy()[::-1]
        return a
    items = [build(x) for x in v['items']]
    how = v['how']
    if how == 'list':
        return items
    if how == 'tuple':
        return tuple(items)
    if how == 'map':
        return map(lambda x: x, items)
    if how == 'range':
        return range(items[0], items[0] + len(items)) if items else range(0)
    return zip(*zip(*items))


def spoil(v):
    """Change what the caller passed"""
    if isinstance(v, numpy.ndarray):
        v[...] = 77
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append(77)
            v[0] = 'spoilt'


class Driver(object):
    limit = 20

    def __init__(self, config):
        self.classes = {}

    def cleanup(self):
        self.node = None

    def reset(self, ident, params, rng=None):
        self.ident = ident
        self.stores = 0
        self.node = self.type = None
        self.types = params.get('types', TYPES)

    def now(self):
        if not self.field.fhas(self.node):
            return 'default'
        return label(self.node.v)

    def do(self, op):
        if op['k'] == 'type':
            self.type = op['type']
            if self.type not in self.classes:
                f = field.newField('v', self.type, 1)
                self.classes[self.type] = (f, node.prototype('P', [f], baseClasses=(node.Node,)))
            self.field, cls = self.classes[self.type]
            self.node = cls()
            return {'ret': 'ok'}
        value = build(op['v'])
        how = (self.ident + self.stores) % 3
        self.stores += 1
        try:
            if how == 0:
                self.node.v = value
            elif how == 1:
                self.field.fset(self.node, value)
            else:
                self.node = self.classes[self.type][1](v=value)
            ret = None
        except ValueError:
            ret = 'ValueError'
        now = self.now()
        spoil(value)
        kept = self.now()
        again = now
        if now != 'default':
            try:
                self.node.v = self.node.v
                again = self.now()
            except ValueError:
                again = 'ValueError'
        return {'ret': ret or now, 'now': now, 'kept': kept, 'again': again, 'done': 'yes'}

    # ------------------------------------------------------------ random values
    def number(self, rng):
        w = rng.choice(['int', 'int', 'float', 'float', 'float', 'bool'])
        if w == 'int':
            n = UNIT * rng.randint(-20, 40)
        elif w == 'bool':
            n = UNIT * rng.randint(0, 1)
        else:
            n = rng.choice([255, 51]) * rng.randint(-30, 200)
        return dict(t='num', w=w, n=n)

    def word(self, rng):
        k = rng.random()
        if k < .45:
            return '%s%d' % (rng.choice(['', '', '', '-', '+', '0']), rng.randint(0, 30))
        if k < .65:
            return '%s%d.%s' % (rng.choice(['', '', '-', '+']), rng.randint(0, 30), rng.choice(['', '0', '5', '25', '75', '05', '10', '500']))
        if k < .72:
            return '%s.%s' % (rng.choice(['', '-']), rng.choice(['5', '25', '750', '']))
        if k < .82:
            return '%d%s%s%d' % (rng.randint(0, 9), rng.choice('eE'), rng.choice(['', '+']), rng.randint(0, 2))
        if k < .86:
            return '%d5e-1' % rng.randint(0, 9)
        if k < .95:
            return rng.choice(['1.2.3', '1e', '-', '--1', '1-', 'x', '1x', '0x10', 'e5', '1e+', '+.', '.e1', '1,5'])
        return rng.choice(['true', 'FALSE', 'red', 'Red', 'a-b', '#aabbcc'])

    def color(self, rng):
        k = rng.random()
        if k < .5:
            name = rng.choice(sorted(csscolors.cssColors))
            return rng.choice([name, name.upper(), name.title()])
        if k < .9:
            h = '#' + ''.join(rng.choice('0123456789abcdefABCDEF') for i in range(6))
            return h
        return rng.choice(['grue', '#12345g', 'reddish', 're d', '0 0 1'])

    def text(self, rng):
        n = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 3, 4, 4, 6, 8, 9, 16])
        out = ''
        for i in range(n):
            out += self.word(rng) + rng.choice([' ', ' ', ', ', ',', '\n', '\t '])
        if out and rng.random() < .7:
            out = out.strip(' ,\n\t')
        if rng.random() < .1:
            out = '[' + out + ']'
        return out

    def item(self, rng, depth):
        k = rng.random()
        if k < .8:
            return self.number(rng)
        if k < .87:
            return dict(t='text', s=self.word(rng))
        if k < .94 and depth:
            return self.sequence(rng, depth - 1, ['list', 'tuple'])
        return rng.choice([dict(t='none'), dict(t='node'), dict(t='huge'), dict(t='over'), dict(t='text', s='ab'),
                           dict(t='num', w='int', n=UNIT), dict(t='num', w='int', n=2 * UNIT)])

    def sequence(self, rng, depth, hows):
        how = rng.choice(hows)
        n = rng.choice([0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 6, 8, 9, 12, 16, 18])
        if how == 'range':
            a = rng.randint(-3, 5)
            return dict(t='seq', how=how, items=[dict(t='num', w='int', n=UNIT * (a + i)) for i in range(n)])
        if how == 'zip' or (depth and rng.random() < .4):
            c = rng.choice([2, 2, 3, 3, 3, 4, 4])
            n = min(n, 4) or 1
            inner = 'tuple' if how == 'zip' else rng.choice(['list', 'tuple'])
            return dict(t='seq', how=how, items=[dict(t='seq', how=inner, items=[self.number(rng) for j in range(c)])
                                                 for i in range(n)])
        if rng.random() < .5:
            return dict(t='seq', how=how, items=[self.number(rng) for i in range(n)])
        if rng.random() < .3:
            items = []
            for i in range(n):
                items += ([dict(t='text', s=self.color(rng))] if rng.random() < .5
                          else [self.number(rng) for j in range(3)])
            return dict(t='seq', how=how, items=items)
        if rng.random() < .3:
            return dict(t='seq', how=how, items=[dict(t='text', s=self.text(rng)) for i in range(n)])
        return dict(t='seq', how=how, items=[self.item(rng, depth) for i in range(n)])

    def value(self, rng):
        k = rng.random()
        if k < .1:
            return self.number(rng)
        if k < .3:
            return dict(t='text', s=self.text(rng))
        if k < .4:
            return dict(t='text', s=self.color(rng))
        if k < .45:
            return rng.choice([dict(t='none'), dict(t='node'), dict(t='huge'), dict(t='over'), dict(t='bytes', s='by')])
        if k < .75:
            return self.sequence(rng, 2, ['list', 'list', 'tuple', 'map', 'range', 'zip'])
        dtype = rng.choice('ffddiIlhB')
        shape = rng.choice([[], [0], [1], [2], [3], [4], [6], [8], [9], [12], [16], [1, 2], [2, 2], [2, 3], [3, 3], [2, 4],
                            [4, 4], [2, 2, 2], [2, 3, 3], [2, 4, 4], [1, 1, 3]])
        count = 1
        for s in shape:
            count *= s
        if dtype in 'fd':
            # what single precision can hold exactly
            nums = [self.number(rng)['n'] // 255 * 255 for i in range(count)]
        else:
            nums = [UNIT * rng.randint(0 if dtype in 'IB' else -9, 90) for i in range(count)]
        return dict(t='arr', dtype=dtype, shape=shape, nums=nums, lay=rng.choice(['C', 'T', 'step', 'back']))

    def gen(self, rng):
        if self.type is None:
            return dict(k='type', type=rng.choice(self.types))
        return dict(k='store', v=self.value(rng))
