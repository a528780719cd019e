"""Random VRML97 programs, as tokens (strings start with a quote)"""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
MF = ('MFInt32', 'MFFloat', 'MFTime', 'MFString', 'MFVec2f', 'MFVec3f', 'MFColor', 'MFRotation')
SF = ('SFBool', 'SFInt32', 'SFFloat', 'SFTime', 'SFString', 'SFVec2f', 'SFVec3f', 'SFColor', 'SFRotation', 'SFImage')
TYPES = SF + MF + ('SFNode', 'MFNode')
SIZE = {'Vec2f': 2, 'Vec3f': 3, 'Color': 3, 'Rotation': 4}
SCRIPT = (('field', 'MFString', 'url'), ('field', 'SFBool', 'directOutput'), ('field', 'SFBool', 'mustEvaluate'))


def table():
    """The standard nodes of the specification: name -> [(kind, type, name)]"""
    with open(os.path.join(HERE, '..', '..', 'spec', 'VrmlNodes.tla')) as f:
        text = f.read().split('StdNodes == [', 1)[1]
    nodes = {}
    for m in re.finditer(r'(\w+) \|-> <<(.*?)>>(?=,?\s*(?:\w+ \|->|\]))', text, re.S):
        nodes[m.group(1)] = [(k, t, n) for k, t, n in re.findall(r'([EFIO])\("(\w+)", "(\w+)"', m.group(2))]
    assert len(nodes) == 53, len(nodes)
    return nodes


def defaults():
    """The numbers standard fields have by default: [(node, type, field, words)]"""
    with open(os.path.join(HERE, '..', '..', 'spec', 'VrmlNodes.tla')) as f:
        text = f.read().split('StdNodes == [', 1)[1]
    found = []
    for m in re.finditer(r'(\w+) \|-> <<(.*?)>>(?=,?\s*(?:\w+ \|->|\]))', text, re.S):
        for t, n, d in re.findall(r'[EF]\("(\w+)", "(\w+)", <<(.*?)>>\)', m.group(2), re.S):
            words = re.findall(r'"(.*?)"', d)
            if words and t[2:] in ('Float', 'Time', 'Vec2f', 'Vec3f', 'Rotation', 'Color'):
                found.append((m.group(1), t, n, words))
    assert len(found) > 80, len(found)
    return found


STD = table()
COMMON = ['Group', 'Transform', 'Shape', 'Switch', 'Box', 'Sphere', 'Appearance', 'Material', 'Coordinate', 'IndexedFaceSet', 'Text',
          'TimeSensor', 'PixelTexture', 'PositionInterpolator', 'LOD', 'Inline']
CHARS = 'ab#{}[]"\\\' ,.:/\t\n\r0Z$%^&*()<>?@~`|_-+='


class Scope(object):
    def __init__(self, parent=None, owner=None):
        self.parent = parent
        self.owner = owner      # [(kind, type, name)] of the prototype this is the body of
        self.names = {}
        self.protos = {}

    def types(self):
        found = dict(self.parent.types()) if self.parent else {}
        found.update(self.protos)
        return found


class Gen(object):
    unique = False      # nothing is declared twice
    zeros = False       # many zeros with signs
    words = None        # what strings are made of

    def __init__(self, rng, size, wrong=None):
        self.rng = rng
        self.toks = []
        self.left = size
        self.count = 0
        self.open = set()
        self.wrong = wrong      # an error to make
        self.scope = Scope()
        self.plain = 0
        self.cuts = []
        self.declared = set()

    def chance(self, p):
        return self.rng.random() < p

    def emit(self, *toks):
        self.toks.extend(toks)

    def err(self, kind, p=.3):
        if self.wrong == kind and self.chance(p):
            self.wrong = None
            return True
        return False

    # ---------------------------------------------- values
    def whole(self):
        r = self.rng
        return r.choice(['0', '1', '-1', '+5', '12', '007', '-030', '0x1F', '0X0a', '2147483647', str(r.randrange(-999, 99999))])

    def real(self):
        r = self.rng
        if self.zeros and self.chance(.5):
            return r.choice(['0', '-0', '0.0', '-0.0', '-.0', '-0e3', '1', '-1', '1.0'])
        return r.choice(['0', '1', '-1', '.5', '-.5', '2.', '+3.25', '1e3', '1.5E-2', '-2.5e+1', '0.0', '00.10', '1e10', '.001e3',
                         '%s%d.%d' % (r.choice(['', '-', '+']), r.randrange(100), r.randrange(1000)),
                         '%de%d' % (r.randrange(1, 999), r.randrange(-8, 9))])

    def string(self):
        r = self.rng
        if self.words:
            return '"' + ''.join([r.choice(self.words) for i in range(r.choice([0, 1, 1, 2, 3, 5, 12, 70]))])
        return '"' + ''.join([r.choice(CHARS) for i in range(r.choice([0, 1, 2, 3, 5, 9]))])

    def item(self, base):
        if base == 'Bool':
            return [self.rng.choice(['TRUE', 'FALSE'])]
        if base == 'String':
            return [self.string()]
        if base == 'Int32':
            return [self.whole()]
        if base == 'Color':     # kept between 0 and 1
            return [self.rng.choice(['0', '1', '.5', '0.25', '1e-3', '1.0', '+.75', '5E-1']) for i in range(3)]
        return [self.real() for i in range(SIZE.get(base, 1))]

    def value(self, t):
        r = self.rng
        base = t[2:]
        if t == 'SFNode':
            if self.chance(.2):
                return self.emit('NULL')
            return self.node()
        if t == 'MFNode':
            if self.chance(.15):
                return self.node()
            self.emit('[')
            for i in range(r.choice([0, 1, 1, 2, 2, 3])):
                self.node()
            self.cut()
            if self.err('list'):
                self.emit(r.choice(['}', 'NULL', '"x', '[']))
            return self.emit(']')
        if t == 'SFImage':
            w, h = r.choice([(0, 0), (1, 1), (1, 2), (2, 2), (3, 1)])
            n = w * h
            return self.emit(str(w), str(h), str(r.choice([1, 3, 4])), *[r.choice(['0', '255', '0xFF', '65535', '007']) for i in range(n)])
        if self.err('kind'):
            return self.emit(*(['"x'] if base != 'String' else ['12'] if self.chance(.5) else ['TRUE']))
        if t[:2] == 'SF' or self.chance(.2):
            items = self.item(base)
            if self.err('few') and len(items) > 1:
                items.pop()
            return self.emit(*items)
        self.emit('[')
        items = sum([self.item(base) for i in range(r.choice([0, 1, 2, 3, 7] + [105] * bool(self.words)))], [])
        if self.err('few') and len(self.item(base)) > 1:
            items.append('1')
        self.emit(*items)
        self.cut()
        self.emit(']')

    def cut(self):
        self.cuts.append(len(self.toks))

    # ---------------------------------------------- nodes
    def usable(self):
        return [n for n, i in sorted(self.scope.names.items()) if i not in self.open]

    def node(self):
        r = self.rng
        self.left -= 1
        use = self.usable()
        if use and self.chance(.15) and not self.plain:
            return self.emit('USE', r.choice(use))
        if self.err('use') and not self.plain:
            return self.emit('USE', 'Nobody')
        protos = self.scope.types()
        roll = r.random()
        if protos and roll < .3:
            name = r.choice(sorted(protos))
            rows = [x for x in protos[name] if x[0] in ('field', 'exposedField')]
            ports = protos[name]
        elif roll < .42 and not self.plain:
            name, rows, ports = 'Script', list(SCRIPT), []
        else:
            name = r.choice(COMMON if self.chance(.6) else sorted(STD))
            rows = [('field', t, n) for k, t, n in STD[name] if k in 'EF']
            ports = [(k, t, n) for k, t, n in STD[name]]
        if name in protos and name != 'Script':
            rows = [x for x in protos[name] if x[0] in ('field', 'exposedField')]
            ports = protos[name]
        gi = "Nothing" if name != "Script" and self.err("type") else name
        self.count += 1
        me = self.count
        if self.chance(.35) and not self.plain:
            d = r.choice('ABCDE') if self.chance(.8) else r.choice(['DEFORM', 'USEFUL', 'N_1', 'a-b', 'Is', 'TOP', 'x$%'])
            if self.unique and d in self.scope.names:
                d = 'D%d' % me
            self.scope.names[d] = me
            self.emit('DEF', d)
        self.open.add(me)
        self.emit(gi, '{')
        if self.left < 0:
            rows = [x for x in rows if x[1] not in ('SFNode', 'MFNode')]
        picked = r.sample(rows, min(len(rows), r.choice([0, 1, 1, 2, 3])))
        if name == 'Script':
            for i in range(r.choice([0, 1, 2, 3])):
                self.declare('s%d' % i)
        for row in picked:
            self.statement(.06)
            self.emit('noSuchField' if self.err('field') else row[2])
            if self.toks[-1] == 'noSuchField':
                self.emit('1')
                continue
            self.isOr(row[1])
        self.cut()
        if self.scope.owner and not self.plain and self.chance(.3):
            events = [x for x in ports if x[0] in ('I', 'O', 'eventIn', 'eventOut')]
            if events:
                e = r.choice(events)
                same = [x for x in self.scope.owner if x[1] == e[1]]
                if same:
                    self.emit(e[2], 'IS', r.choice(same)[2])
        if self.err('stray'):
            self.emit(r.choice([']', '{', '[', '"x']))
        self.emit('}')
        self.open.discard(me)

    def isOr(self, t):
        same = [x for x in self.scope.owner or [] if x[1] == t and x[0] in ('field', 'exposedField')]
        if same and not self.plain and self.chance(.5):
            self.emit('IS', self.rng.choice(same)[2])
        else:
            self.value(t)

    def declare(self, name):
        r = self.rng
        kind = r.choice(['field', 'eventIn', 'eventOut'])
        t = r.choice([x for x in TYPES if self.left > 0 or x[2:] != 'Node'])
        self.emit(kind, t, name)
        if kind == 'field':
            self.isOr(t)
        else:
            same = [x for x in self.scope.owner or [] if x[1] == t and x[0] == kind]
            if same and self.chance(.6):
                self.emit('IS', r.choice(same)[2])

    # ---------------------------------------------- declarations and routes
    def statement(self, p):
        if self.plain or not self.chance(p):
            return
        r = self.rng
        roll = r.random()
        if roll < .5:
            names = sorted(self.scope.names)
            if names:
                a, b = r.choice(names), r.choice(names)
                if self.err('route'):
                    a, b = r.choice([(a, 'Nobody'), ('Nobody', b)])
                self.emit('ROUTE', a, '.', r.choice(['x', 'translation', 'set_y', 'children_changed']), 'TO', b, '.', r.choice(['x', 'set_scale', 'TOP']))
        elif self.left > 0:
            self.left -= 2
            name = r.choice([x for x in ('P', 'Q', 'R', 'PROTOTYPE', 'Box', 'Group') if x not in self.scope.protos] or [''])
            if self.unique:
                name = r.choice(['P', 'Q', 'R', 'PROTOTYPE', 'a-b'])
                if name in self.declared:
                    name = 'P%d' % len(self.declared)
                self.declared.add(name)
            if not name:
                return
            external = self.chance(.2)
            self.emit('EXTERNPROTO' if external else 'PROTO', name, '[')
            iface = []
            self.plain += 1
            for i in range(r.choice([0, 1, 2, 3])):
                kind = r.choice(['field', 'exposedField', 'exposedField', 'eventIn', 'eventOut'])
                t = r.choice(TYPES)
                iface.append((kind, t, 'i%d' % i))
                self.emit(kind, t, 'i%d' % i)
                if kind in ('field', 'exposedField') and not external:
                    self.value(t)
            self.plain -= 1
            self.cut()
            self.emit(']')
            if external:
                if self.chance(.3):
                    self.emit(self.string())
                else:
                    self.emit('[', *([self.string() for i in range(r.choice([0, 1, 2]))] + [']']))
                # strings do not follow strings
                self.scope.protos[name] = iface
                return
            self.emit('{')
            inner = Scope(self.scope, iface)
            outer, self.scope = self.scope, inner
            self.statements(r.choice([0, 1, 2]))
            self.cut()
            self.emit('}')
            self.scope = outer
            self.scope.protos[name] = iface

    def statements(self, n):
        for i in range(n):
            self.statement(.35)
            self.node()
        self.statement(.3)


WRONG = ['list', 'kind', 'few', 'use', 'type', 'field', 'stray', 'route']


def program(rng):
    """The tokens of a program, which may be wrong in one way"""
    wrong = rng.choice(WRONG) if rng.random() < .25 else None
    g = Gen(rng, rng.choice([2, 5, 9, 14]), wrong)
    g.statements(rng.choice([1, 1, 2, 3]))
    if rng.random() < .06 and g.cuts and g.wrong is None and wrong is None:
        return g.toks[:rng.choice(g.cuts)]
    if wrong is None and rng.random() < .04:
        return g.toks + [rng.choice(['}', ']', '{'])]
    return g.toks
