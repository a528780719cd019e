"""Builds scenes from tokens with the library's API, without its parser.

The tokens are those of a correct text; {'t': 's', 'v': characters} is a
string, everything else is {'t': 'w', 'v': text}.
"""
from vrml import node, field, protofunctions, route
from vrml.vrml97 import scenegraph, script, basenamespaces
from drivers import vrmltext

SIZE = {'Vec2f': 2, 'Vec3f': 3, 'Color': 3, 'Rotation': 4}
KINDS = ('field', 'exposedField', 'eventIn', 'eventOut')


def chars(v):
    return ''.join([vrmltext.uncharacter(c) for c in v])


def integer(w):
    return int(w, 16) if 'x' in w.lower() else int(w, 10)


def convert(t, items):
    """The Python value for the items (words, or strings) of a simple type"""
    base = t[2:]
    if base == 'Bool':
        return [w == 'TRUE' for w in items][0]
    if base == 'String':
        return list(items) if t[:2] == 'MF' else items[0]
    if base in ('Int32', 'Image'):
        values = [integer(w) for w in items]
    else:
        values = [float(integer(w)) if 'x' in w.lower() else float(w) for w in items]
    size = SIZE.get(base, 1)
    if t[:2] == 'MF' and size > 1:
        return [values[i:i + size] for i in range(0, len(values), size)]
    if t[:2] == 'MF' or size > 1 or base == 'Image':
        return values
    return values[0]


class Scope(object):
    def __init__(self, parent=None, proto=None):
        self.parent, self.proto = parent, proto
        self.children, self.names, self.routes, self.protos = [], {}, [], {}

    def type(self, name):
        if name in self.protos:
            return self.protos[name]
        return self.parent.type(name) if self.parent else basenamespaces.basePrototypes[name]


class Maker(object):
    """keywords: give nodes their fields in their constructors"""

    def __init__(self, toks, keywords):
        self.toks = toks
        self.i = 0
        self.keywords = keywords

    # ---------------------------------------------- tokens
    def peek(self):
        return self.toks[self.i]['v'] if self.i < len(self.toks) and self.toks[self.i]['t'] == 'w' else None

    def take(self):
        x = self.toks[self.i]
        self.i += 1
        return chars(x['v']) if x['t'] == 's' else x['v']

    def expect(self, w):
        got = self.take()
        assert got == w, (got, w, self.i)

    # ---------------------------------------------- scopes
    def scene(self):
        top = Scope()
        self.statements(top)
        assert self.i == len(self.toks)
        return self.built(top, None)

    def built(self, scope, root):
        sg = scenegraph.SceneGraph(root=root, children=scope.children)
        for proto in scope.protos.values():
            sg.addProto(proto)
        for name, n in scope.names.items():
            sg.regDefName(name, n)
        for a, fa, b, fb in scope.routes:
            if self.keywords:
                sg.addRoute(route.ROUTE(scope.names[a], fa, scope.names[b], fb))
            else:
                sg.addRoute(a, fa, b, fb)
        return sg

    def statements(self, scope):
        while self.peek() not in (None, '}'):
            if not self.statement(scope):
                scope.children.append(self.node(scope))

    def statement(self, scope):
        w = self.peek()
        if w == 'ROUTE':
            self.take()
            a = self.take(); self.expect('.'); fa = self.take(); self.expect('TO')
            b = self.take(); self.expect('.'); fb = self.take()
            scope.routes.append((a, fa, b, fb))
        elif w in ('PROTO', 'EXTERNPROTO'):
            self.proto(scope)
        else:
            return False
        return True

    def proto(self, scope):
        external = self.take() == 'EXTERNPROTO'
        name = self.take()
        self.expect('[')
        fields = []
        while self.peek() != ']':
            kind, t, n = self.take(), self.take(), self.take()
            if kind in ('field', 'exposedField'):
                if external:
                    fields.append(field.newField(n, t, kind == 'exposedField'))
                else:
                    fields.append(field.newField(n, t, kind == 'exposedField', self.value(scope, t)))
            else:
                fields.append(field.newEvent(n, t, kind == 'eventOut'))
        self.take()
        if external:
            made = node.prototype(name, fields, externalURL=self.value(scope, 'MFString'))
        else:
            made = node.prototype(name, fields)
            self.expect('{')
            inner = Scope(scope, made)
            self.statements(inner)
            self.expect('}')
            protofunctions.setSceneGraph(made, self.built(inner, None))
        scope.protos[name] = made

    # ---------------------------------------------- values and nodes
    def value(self, scope, t):
        if t == 'SFNode':
            return self.node(scope)
        listed = self.peek() == '['
        if listed:
            self.take()
        if t == 'MFNode':
            if not listed:
                return [self.node(scope)]
            found = []
            while self.peek() != ']':
                found.append(self.node(scope))
            self.take()
            return found
        items = []
        if listed:
            while self.peek() != ']':
                items.append(self.take())
            self.take()
        elif t == 'SFImage':
            items = [self.take() for i in range(3)]
            items += [self.take() for i in range(integer(items[0]) * integer(items[1]))]
        else:
            items = [self.take() for i in range(SIZE.get(t[2:], 1))]
        return convert(t, items)

    def node(self, scope):
        w = self.take()
        if w == 'NULL':
            return node.NULL
        if w == 'USE':
            return scope.names[self.take()]
        name = ''
        if w == 'DEF':
            name, w = self.take(), self.take()
        self.expect('{')
        if w == 'Script':
            return self.script(scope, name)
        cls = scope.type(w)
        values, ismaps = [], []
        holder = [None]
        if name:
            # the name is known from here on, the node is there when its fields are
            made = cls() if not self.keywords else cls(DEF=name)
            scope.names[name] = made
            self.attributes(scope, cls, values, ismaps)
            for n, v in values:
                setattr(made, n, v)
            protofunctions.defName(made, name)
        else:
            self.attributes(scope, cls, values, ismaps)
            if self.keywords:
                made = cls(**dict(values))
            else:
                made = cls()
                for n, v in values:
                    setattr(made, n, v)
        self.connect(scope, made, ismaps)
        return made

    def connect(self, scope, made, ismaps):
        for n, iface in ismaps:
            node.ismaps(scope.proto).setdefault(iface, []).append((made, n))

    def attributes(self, scope, cls, values, ismaps):
        while self.peek() != '}':
            if self.statement(scope):
                continue
            n = self.take()
            if self.peek() == 'IS':
                self.take()
                ismaps.append((n, self.take()))
            else:
                values.append((n, self.value(scope, protofunctions.getField(cls, n).typeName())))
        self.take()

    def script(self, scope, name):
        fields, values, ismaps, declared = [], [], [], {}
        while self.peek() != '}':
            if self.statement(scope):
                continue
            w = self.take()
            if w in KINDS:
                t, n = self.take(), self.take()
                mapped = None
                if self.peek() == 'IS':
                    self.take()
                    mapped = self.take()
                    ismaps.append((n, mapped))
                if w in ('field', 'exposedField'):
                    if mapped:
                        fields.append(field.newField(n, t, w == 'exposedField'))
                    else:
                        fields.append(field.newField(n, t, w == 'exposedField', self.value(scope, t)))
                else:
                    fields.append(field.newEvent(n, t, w == 'eventOut'))
                declared[n] = t
            elif self.peek() == 'IS':
                self.take()
                ismaps.append((w, self.take()))
            else:
                t = declared.get(w) or protofunctions.getField(script._Script, w).typeName()
                values.append((w, self.value(scope, t)))
        self.take()
        made = script.Script(fields, **dict(values))
        if name:
            protofunctions.defName(made, name)
            scope.names[name] = made
        self.connect(scope, made, ismaps)
        return made


def scene(toks, keywords):
    return Maker(toks, keywords).scene()
