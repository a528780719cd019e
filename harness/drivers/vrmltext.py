"""What a scenegraph is, as the lines of Dump in spec/Vrml.tla"""
import decimal, numpy
from vrml import node, field, protofunctions
from vrml.vrml97 import scenegraph

SCRIPT = ('url', 'directOutput', 'mustEvaluate')
HIDDEN = ('externalURL',)
STRINGS = ('SFString', 'MFString')
NODES = ('SFNode', 'MFNode')
KEEP = set('\t\n\r\f') | set(chr(c) for c in range(32, 127))


def char(c):
    return c if c in KEEP else 'U+%04X' % ord(c)


def uncharacter(name):
    return chr(int(name[2:], 16)) if len(name) > 1 else name


def enc(s):
    return ''.join([char(c) for c in s])


def number(x):
    """The canonical decimal form of a number"""
    if isinstance(x, (bool, numpy.bool_)):
        return repr(x)
    if isinstance(x, (int, numpy.integer)):
        text = str(int(x))
    elif isinstance(x, numpy.floating) and not isinstance(x, float):
        text = str(x)
    else:
        text = repr(float(x))
    return canonical(text)


def canonical(text):
    try:
        sign, digits, exp = decimal.Decimal(text).as_tuple()
    except decimal.InvalidOperation:
        return text
    if not isinstance(exp, int):
        return text
    d = ''.join(map(str, digits)).lstrip('0')
    while d.endswith('0'):
        d, exp = d[:-1], exp + 1
    if not d:
        return '0'
    return '%s%s%s' % ('-' if sign else '', d, 'e%d' % exp if exp else '')


def string(s):
    e = enc(s)
    return '%d:%s' % (len(e), e)


def simple(t, value):
    if t == 'SFBool':
        return 'TRUE' if value else 'FALSE'
    if t == 'SFString':
        return string(value)
    if t == 'MFString':
        return ' '.join([string(s) for s in value])
    return ' '.join([number(x) for x in (numpy.ravel(value) if numpy.ndim(value) else [value])])


def typename(f):
    return f.typeName() if isinstance(f, field.Field) else f.fieldType if hasattr(f, 'fieldType') else f.typeName()


def null(value):
    return value is None or value is node.NULL


class Dump(object):
    def __init__(self, sg, flat):
        self.flat = flat
        self.num = {}
        self.keep = []
        self.out = []
        self.labels = {}
        self.types = {}
        self.ismaps = {}
        self.collect(sg, '')
        for label in sorted(self.types):
            self.proto(label, self.types[label])
        self.scope(sg, 0)

    def line(self, ind, text):
        self.out.append(' ' * ind + text)

    # ---------------------------------------------- prototypes
    def collect(self, sg, owner):
        for name, cls in sg.protoTypes.items():
            if not isinstance(cls, type) or not issubclass(cls, node.PrototypedNode):
                continue
            label = name if self.flat or not owner else owner + '/' + name
            if protofunctions.protoName(cls) != name:
                self.line(0, 'declared as %s: %s' % (name, protofunctions.protoName(cls)))
            if id(cls) in self.labels and self.flat:
                continue
            self.labels[id(cls)] = label
            self.types[label] = cls
            for iface, conns in node.ismaps(cls).items():
                for n, f in conns:
                    self.ismaps.setdefault(id(n), {}).setdefault(f, []).append(iface)
            body = self.body(cls)
            if body is not None:
                self.collect(body, label)

    def body(self, cls):
        sg = protofunctions.getSceneGraph(cls)
        return sg if isinstance(sg, scenegraph.SceneGraph) else None

    def external(self, cls):
        url = cls.__dict__.get('externalURL')
        return None if url is None or hasattr(url, '__get__') else list(url)

    def proto(self, label, cls):
        url = self.external(cls)
        self.line(0, ('PROTO ' + label) if url is None else 'EXTERNPROTO %s %s' % (label, simple('MFString', url)))
        rows = dict((f.name, f) for f in list(protofunctions.getFields(cls)) + list(protofunctions.getFields(cls, 1))
                    if f.name[:1] != ' ' and f.name not in HIDDEN)
        for name in sorted(rows):
            f = rows[name]
            head = '%s %s %s' % (self.kind(f), typename(f), name)
            if not isinstance(f, field.Field) or url is not None:
                self.line(1, head)
            elif typename(f) in NODES:
                self.line(1, head + ' =')
                self.nodes(self.ids(f.coerce(f.getDefault())), 2)
            else:
                self.line(1, '%s = %s' % (head, simple(typename(f), f.coerce(f.getDefault()))))
        body = self.body(cls)
        if body is not None:
            self.scope(body, 1)

    def kind(self, f):
        if isinstance(f, field.Field):
            return 'exposedField' if f.exposure else 'field'
        return 'eventOut' if f.direction else 'eventIn'

    # ---------------------------------------------- scopes and nodes
    def scope(self, sg, ind):
        self.nodes(list(sg.children), ind)
        for r in sg.routes:
            self.line(ind, 'ROUTE %s.%s TO %s.%s' % (self.ref(r.source), r.sourceField, self.ref(r.destination), r.destinationField))
        for name in sorted([x for x in sg.defNames if x]):  # unnamed nodes are under ''
            self.line(ind, 'name %s %s' % (name, self.ref(sg.defNames[name])))

    def ref(self, n):
        k = self.num.get(id(n))
        return '#%d' % k if k else 'elsewhere'

    def ids(self, value):
        return list(value) if isinstance(value, list) else [value]

    def nodes(self, items, ind):
        for n in items:
            self.node(n, ind)

    def label(self, n):
        cls = n.__class__
        if isinstance(n, node.PrototypedNode) and protofunctions.protoName(n) != 'Script':
            return self.labels.get(id(cls)) or 'unknown ' + protofunctions.protoName(n)
        return protofunctions.protoName(n)

    def node(self, n, ind):
        if null(n):
            return self.line(ind, 'NULL')
        if not isinstance(n, node.Node):
            return self.line(ind, 'not a node: %r' % (n,))
        if id(n) in self.num:
            return self.line(ind, self.ref(n))
        self.num[id(n)] = len(self.num) + 1
        self.keep.append(n)
        label = self.label(n)
        name = protofunctions.defName(n)
        self.line(ind, '#%d %s%s' % (self.num[id(n)], label, ' DEF ' + name if name else ''))
        script = label == 'Script'
        maps = self.ismaps.get(id(n), {})
        rows = dict((f.name, f) for f in protofunctions.getFields(n) if f.name[:1] != ' ' and f.name not in HIDDEN)
        events = dict((f.name, f) for f in protofunctions.getFields(n, 1) if f.name[:1] != ' ') if script else {}
        for name in sorted(set(rows) | set(events) | set(maps)):
            f = rows.get(name) or events.get(name)
            own = script and f is not None and name not in SCRIPT
            decl = '%s %s ' % (self.kind(f), typename(f)) if own else ''
            if name in maps:
                self.line(ind + 1, '%s%s IS %s' % (decl, name, ' '.join(sorted(set(maps[name])))))
            elif name in events:
                self.line(ind + 1, decl + name)
            elif typename(f) in NODES:
                value = self.ids(f.fget(n))
                if own or [id(x) for x in value] != [id(x) for x in self.ids(f.coerce(f.getDefault()))]:
                    self.line(ind + 1, '%s%s =' % (decl, name))
                    self.nodes(value, ind + 2)
            else:
                t = typename(f)
                value = simple(t, f.fget(n))
                if own or value != simple(t, f.coerce(f.getDefault())):
                    self.line(ind + 1, '%s%s = %s' % (decl, name, value))


def dump(sg, flat):
    return Dump(sg, flat).out


def outcome(parse, flat):
    """{'ret', 'dump'} of reading a text"""
    try:
        result = parse()
    except NameError:
        return {'ret': 'NameError', 'dump': []}
    except AttributeError:
        return {'ret': 'AttributeError', 'dump': []}
    except Exception:
        return {'ret': 'error', 'dump': []}
    sg = result[1][1] if isinstance(result, tuple) and result[0] else None
    if sg is None:
        return {'ret': 'error', 'dump': []}
    return {'ret': 'ok', 'dump': dump(sg, flat)}
