"""Prototype instances: the real side of spec/Instances.tla"""
import gc, weakref
from vrml import node, field, fieldtypes, route, protofunctions
from vrml.vrml97 import scenegraph, parser, parseprocessor, basenamespaces

TYPES = {'int': 'SFInt32', 'str': 'SFString', 'node': 'SFNode', 'kids': 'MFNode', 'event': 'SFInt32'}
EXTERNAL = ('e1', 'e2', 'e3')
LEAF = [('a', 'int'), ('b', 'int'), ('s', 'str'), ('c', 'node'), ('kids', 'kids')]


class Leaf(node.Node):
    """A node of a prototype's body"""
    PROTO = 'Leaf'
    a = field.newField('a', 'SFInt32', 1, 0)
    b = field.newField('b', 'SFInt32', 1, 0)
    s = field.newField('s', 'SFString', 1, '')
    c = field.newField('c', 'SFNode', 1, node.NULL)
    kids = field.newField('kids', 'MFNode', 1, list)


class Driver(object):
    def __init__(self, config):
        self.clear()

    def clear(self):
        self.protos = {}
        self.decl = {}
        self.order = []
        self.inst = {}
        self.scenes = []
        self.last = None

    cleanup = clear

    def reset(self, ident, params, rng=None):
        self.clear()
        self.count = self.ident = ident
        self.elsewhere = dict((n, Leaf()) for n in EXTERNAL)
        self.names = None

    # -------------------------------------------------- what there is
    def body(self, owner):
        return node.PrototypedNode.scenegraph.fget(owner)

    def under(self, owner, decl, pre, out):
        """(name, type, object) of the nodes of a body, in order"""
        sg = self.body(owner)
        for n in decl['nodes']:
            obj = sg.getDEF(n['n'])
            name = pre + n['n']
            out.append((name, n['type'], obj))
            if n['type'] != 'Leaf' and obj is not None:
                self.under(obj, self.decl[n['type']], name + '/', out)
        return out

    def everything(self):
        out = []
        for p in self.order:
            self.under(self.protos[p], self.decl[p], p + '!', out)
        for i in sorted(self.inst):
            p, obj = self.inst[i]
            out.append((i, p, obj))
            self.under(obj, self.decl[p], i + '/', out)
        return out

    def kinds(self, type):
        if type == 'Leaf':
            return LEAF
        return [(f['f'], f['kind']) for f in self.decl[type]['fields']]

    def words(self, value, kind):
        if kind == 'kids':
            return [self.label(x) for x in value]
        if kind == 'node':
            return [self.label(value)]
        return [str(value)]

    def label(self, obj):
        if obj is None or obj is node.NULL:
            return 'NULL'
        return self.byid.get(id(obj)) or 'unknown %s' % (type(obj).__name__,)

    def value(self, obj, f, kind):
        fo = protofunctions.getField(obj, f)
        if self.ident % 3 and not fo.fhas(obj):
            # reading stores the default
            return fo.getDefault(obj) if kind != 'kids' else []
        return fo.fget(obj)

    def obs(self, ret):
        nodes = self.everything()
        self.byid = dict((id(obj), name) for name, t, obj in nodes)
        self.byid.update((id(obj), name) for name, obj in self.elsewhere.items())
        snap, roots = [], []
        for name, t, obj in nodes:
            for f, kind in self.kinds(t):
                if kind != 'event':
                    snap.append('%s.%s=%s' % (name, f, ' '.join(self.words(self.value(obj, f, kind), kind))))
        for i in sorted(self.inst):
            p, obj = self.inst[i]
            shown = [self.label(x) for x in obj.renderedChildren()]
            pre = i + '/'
            roots.append('%s:%s' % (i, ' '.join([x[len(pre):] if x.startswith(pre) else 'not mine: ' + x for x in shown])))
        ids = [id(obj) for name, t, obj in nodes]
        return {'ret': ret, 'snap': snap, 'roots': roots, 'apart': 'yes' if len(set(ids)) == len(ids) else 'no'}

    def find(self, port):
        """The object and the field of a port"""
        name, f = port.split('.')
        for n, t, obj in self.everything():
            if n == name:
                return obj, protofunctions.getField(obj, f), dict(self.kinds(t))[f]
        raise KeyError(port)

    def real(self, val, kind):
        if kind in ('int', 'event'):
            return int(val[0])
        if kind == 'str':
            return val[0]
        nodes = [node.NULL if x == 'NULL' else self.elsewhere[x] for x in val]
        return nodes if kind == 'kids' else nodes[0]

    # -------------------------------------------------- operations
    def do(self, op):
        self.count += 1
        return self.obs(getattr(self, 'do_' + op['k'])(op))

    def do_declare(self, op):
        for d in op['protos']:
            self.order.append(d['name'])
            self.decl[d['name']] = d
        if self.ident % 2:
            self.parsed(op['protos'])
        else:
            for d in op['protos']:
                self.protos[d['name']] = self.declared(d)
        return 'ok'

    def parse(self, text):
        proc = parseprocessor.ParseProcessor(basePrototypes=dict(basenamespaces.basePrototypes, Leaf=Leaf, **self.protos))
        text = '#VRML V2.0 utf8\n' + text
        ok, (header, sg, end), n = parser.buildParser().parse(text, processor=proc)
        assert ok and n == len(text), text
        return sg

    def literal(self, val, kind):
        return val[0] if kind == 'int' else '"%s"' % val[0] if kind == 'str' else 'NULL' if kind == 'node' else '[]'

    def parsed(self, protos):
        out = []
        for d in protos:
            out.append('PROTO %s [' % d['name'])
            for f in d['fields']:
                if f['kind'] == 'event':
                    out.append('eventIn SFInt32 %s' % f['f'])
                else:
                    out.append('%s %s %s %s' % (
                        'exposedField' if self.ident % 4 == 1 else 'field', TYPES[f['kind']], f['f'],
                        self.literal(f['def'], f['kind'])))
            out.append('] {')
            byname = dict((n['n'], n) for n in d['nodes'])
            done = []

            def write(name):
                if name in done:
                    return ['USE ' + name]
                done.append(name)
                n = byname[name]
                lines = ['DEF %s %s {' % (name, n['type'])]
                kinds = dict(self.kinds(n['type']))
                for g in n['given']:
                    lines.append('%s %s' % (g['f'], self.literal(g['val'], kinds[g['f']])))
                for i in d['is']:
                    if i['n'] == name:
                        lines.append('%s IS %s' % (i['nf'], i['f']))
                if n['kids']:
                    lines.append('kids [')
                    for k in n['kids']:
                        lines += write(k)
                    lines.append(']')
                return lines + ['}']
            for r in d['roots']:
                out += write(r)
            for r in d['routes']:
                out.append('ROUTE %(s)s.%(sf)s TO %(d)s.%(df)s' % r)
            out.append('}')
        sg = self.parse('\n'.join(out) + '\n')
        for d in protos:
            self.protos[d['name']] = sg.getProto(d['name'])

    def declared(self, d):
        """The same prototype, made with function calls"""
        fields = []
        for f in d['fields']:
            if f['kind'] == 'event':
                fields.append(field.newEvent(f['f'], 'SFInt32', 0))
            else:
                default = node.NULL if f['kind'] == 'node' else list if f['kind'] == 'kids' else self.real(f['def'], f['kind'])
                fields.append(field.newField(f['f'], TYPES[f['kind']], self.ident % 4 == 2, default))
        sg = scenegraph.SceneGraph()
        nodes = {}
        for n in d['nodes']:
            kinds = dict(self.kinds(n['type']))
            given = dict((g['f'], self.real(g['val'], kinds[g['f']])) for g in n['given'])
            cls = Leaf if n['type'] == 'Leaf' else self.protos[n['type']]
            nodes[n['n']] = cls(**given)
        for n in d['nodes']:
            if n['kids']:
                nodes[n['n']].kids = [nodes[k] for k in n['kids']]
            sg.regDefName(n['n'], nodes[n['n']])
        sg.children = [nodes[r] for r in d['roots']]
        for r in d['routes']:
            sg.addRoute(route.ROUTE(nodes[r['s']], r['sf'], nodes[r['d']], r['df']))
        cls = node.prototype(d['name'], fields, sceneGraph=sg)
        for i in d['is']:
            node.ismaps(cls).setdefault(i['f'], []).append((nodes[i['n']], i['nf']))
        return cls

    def do_make(self, op):
        d = self.decl[op['type']]
        kinds = dict(self.kinds(op['type']))
        if self.count % 2 and not [g for g in op['given'] if kinds[g['f']] in ('node', 'kids')]:
            text = '%s { %s }\n' % (op['type'], ' '.join(['%s %s' % (g['f'], self.literal(g['val'], kinds[g['f']])) for g in op['given']]))
            obj = self.parse(text).children[0]
        else:
            obj = self.protos[op['type']](**dict((g['f'], self.real(g['val'], kinds[g['f']])) for g in op['given']))
        self.inst[op['i']] = (op['type'], obj)
        return 'ok'

    def do_set(self, op):
        obj, fo, kind = self.find(op['p'])
        value = self.real(op['val'], kind)
        if kind == 'kids':
            now = self.words(fo.fget(obj) if fo.fhas(obj) else [], kind)
            if now != op['val'] and set(now) == set(op['val']):
                return 'skip'
        if self.count % 2:
            setattr(obj, fo.name, value)
        else:
            fo.__set__(obj, value)
        return 'ok'

    def do_add(self, op):
        obj, fo, kind = self.find(op['p'])
        e = self.elsewhere[op['e']]
        if fo.fhas(obj) and [x for x in fo.fget(obj) if x is e]:
            return 'skip'
        getattr(obj, fo.name).append(e)
        return 'ok'

    def do_take(self, op):
        obj, fo, kind = self.find(op['p'])
        if not fo.fhas(obj) or not len(fo.fget(obj)):
            return 'skip'
        getattr(obj, fo.name).pop()
        return 'ok'

    def do_del(self, op):
        obj, fo, kind = self.find(op['p'])
        delattr(obj, fo.name)
        return 'ok'

    def do_copy(self, op):
        p, obj = self.inst[op['i']]
        pre = op['i']
        for name, t, o in self.everything():
            if name.split('/')[0] == pre:
                for f, kind in self.kinds(t):
                    if kind in ('node', 'kids'):
                        v = self.value(o, f, kind)
                        for x in (v if kind == 'kids' else [v]):
                            if [e for e in self.elsewhere.values() if e is x]:
                                return 'skip'
        self.inst[op['j']] = (p, obj.copy())
        return 'ok'

    def do_drop(self, op):
        ref = weakref.ref(self.inst.pop(op['i'])[1])
        for gen in (0, 1, 2):
            if ref() is not None:
                gc.collect(gen)
        return 'ok'

    # -------------------------------------------------- random executions
    INSTS = 'ABCD'

    def gen(self, rng):
        if self.names is None:
            self.names = {}
            self.program = self.make_program(rng)
            self.was_set = None
            self.foreign = set()
            return dict(k='declare', protos=self.program)
        k = rng.choice(['make', 'set', 'set', 'set', 'set', 'add', 'take', 'del', 'copy', 'drop', 'set', 'set'])
        free = [i for i in self.INSTS if i not in self.names]
        was_set, self.was_set = self.was_set, None
        own = [i for i in sorted(self.names) if i not in self.foreign]
        if not self.names or (k in ('copy', 'make') and free):
            if k == 'copy' and own:
                i = rng.choice(own)
                self.names[free[0]] = self.names[i]
                return dict(k='copy', i=i, j=free[0])
            d = rng.choice(self.program[-1:] * 3 + self.program)
            self.names[free[0]] = d['name']
            given = []
            for f in rng.sample(d['fields'], len(d['fields'])):
                if f['kind'] != 'event' and rng.random() < .4:
                    if f['kind'] in ('node', 'kids'):
                        if rng.random() < .5:
                            continue
                        self.foreign.add(free[0])
                    given.append(dict(f=f['f'], val=self.gen_value(rng, f['kind'])))
            return dict(k='make', i=free[0], type=d['name'], given=given)
        if k == 'drop' and rng.random() < .5:
            i = rng.choice(sorted(self.names))
            del self.names[i]
            self.foreign.discard(i)
            return dict(k='drop', i=i)
        if k == 'del' and was_set and was_set[1] in ('int', 'str', 'node'):
            return dict(k='del', p=was_set[0])
        ports = []
        for i in sorted(self.names):
            self.ports_of(self.names[i], i, '/', ports)
        if k in ('add', 'take'):
            lists = [p for p in ports if p[1] == 'kids']
            if lists:
                p = rng.choice(lists)[0]
                if k == 'add':
                    self.foreign.add(p[0])
                return dict(k='add', p=p, e=rng.choice(EXTERNAL)) if k == 'add' else dict(k='take', p=p)
        if rng.random() < .1:
            ports = []
            for d in self.program:
                self.ports_of(d['name'], d['name'], '!', ports)
            ports = [p for p in ports if '!' in p[0] and p[1] in ('int', 'str', 'event')]
        # what is connected is more interesting than what is not
        p, kind = rng.choice(ports)
        if kind in ('node', 'kids'):
            if self.foreign.isdisjoint(p[0]) and rng.random() < .6:
                return dict(k='set', p=p, val=['NULL'] if kind == 'node' else [])
            self.foreign.add(p[0])
        self.was_set = (p, kind)
        return dict(k='set', p=p, val=self.gen_value(rng, kind))

    def ports_of(self, type, name, sep, out):
        decl = [d for d in self.program if d['name'] == type][0]
        if sep == '/':
            out.extend([('%s.%s' % (name, f['f']), f['kind']) for f in decl['fields']])
        for n in decl['nodes']:
            if n['type'] == 'Leaf':
                out.extend([('%s%s%s.%s' % (name, sep, n['n'], f), k) for f, k in LEAF])
            else:
                self.ports_of(n['type'], name + sep + n['n'], '/', out)

    def gen_value(self, rng, kind):
        if kind in ('int', 'event'):
            return [str(rng.randint(0, 9))]
        if kind == 'str':
            return [rng.choice(['', 'x', 'y', 'z'])]
        if kind == 'node':
            return [rng.choice(('NULL',) + EXTERNAL)]
        return rng.sample(EXTERNAL, rng.randint(0, 3))

    def make_program(self, rng):
        program = []
        for name in 'PQR'[:rng.choice([1, 1, 2, 2, 3])]:
            fields = []
            for f in 'uvwxyz'[:rng.randint(1, 5)]:
                kind = rng.choice(['int', 'int', 'int', 'str', 'node', 'kids', 'event'])
                default = {'int': [str(rng.randint(0, 9))], 'str': [rng.choice(['', 'x', 'y'])], 'node': ['NULL'],
                           'kids': [], 'event': ['0']}[kind]
                fields.append(dict(f=f, kind=kind, **{'def': default}))
            nodes, roots, holders = [], [], []
            for i in range(rng.randint(1, 4)):
                n = dict(n='n%d' % (i + 1), type=rng.choice(['Leaf', 'Leaf'] + [d['name'] for d in program]), given=[], kids=[])
                nodes.append(n)
                # nodes in document order: below the last Leaf, or beside it
                if holders and rng.random() < .4:
                    holders[-1]['kids'].append(n['n'])
                else:
                    roots.append(n['n'])
                    holders = []
                if n['type'] == 'Leaf':
                    holders.append(n)
            for n in nodes:
                # a node used again, later
                if n['type'] == 'Leaf' and n['kids'] == [] and rng.random() < .3:
                    before = nodes[:nodes.index(n)]
                    before = [b for b in before if not self.reaches(nodes, b['n'], n['n'])]
                    if before:
                        n['kids'].append(rng.choice(before)['n'])
            ports = []
            kinds = {}
            for n in nodes:
                for f, kind in (LEAF if n['type'] == 'Leaf' else
                                [(f['f'], f['kind']) for f in [d for d in program if d['name'] == n['type']][0]['fields']]):
                    ports.append((n, f, kind))
                    kinds[n['n'], f] = kind
            mappings = []
            taken = set()
            for n, f, kind in ports:
                if f == 'kids' and n['kids']:
                    continue
                like = [x for x in fields if x['kind'] == kind or (x['kind'] == 'event' and kind == 'int')]
                if like and rng.random() < .45:
                    mappings.append(dict(f=rng.choice(like)['f'], n=n['n'], nf=f))
                    taken.add((n['n'], f))
                elif kind in ('int', 'str') and rng.random() < .25:
                    n['given'].append(dict(f=f, val=self.gen_value(rng, kind)))
            order = []
            for m in mappings:
                if m['f'] not in order:
                    order.append(m['f'])
            mappings.sort(key=lambda m: order.index(m['f']))
            routes = []
            leaves = [n['n'] for n in nodes if n['type'] == 'Leaf']
            for i in range(rng.choice([0, 0, 1, 2])):
                s, sf, kind = rng.choice([(n['n'], f, k) for n, f, k in ports if n['type'] == 'Leaf'] or [(None, None, None)])
                if s and kind in ('int', 'str'):
                    d, df = rng.choice([(x, f) for x in leaves for f, k in LEAF if k == kind])
                    if (s, sf) != (d, df):
                        routes.append(dict(s=s, sf=sf, d=d, df=df))
            program.append({'name': name, 'fields': fields, 'nodes': nodes, 'roots': roots, 'is': mappings, 'routes': routes})
        return program

    def reaches(self, nodes, a, b):
        if a == b:
            return True
        kids = [n for n in nodes if n['n'] == a][0]['kids']
        return any(self.reaches(nodes, k, b) for k in kids)
