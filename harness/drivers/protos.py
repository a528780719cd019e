"""Prototype scopes: the real side of spec/Protos.tla"""
import gc, weakref
from vrml import node, field, fieldtypes, protofunctions
from vrml.vrml97 import scenegraph, parser, basenodes

SEPARATORS = [' ', '\n', ' , ', '\t', ' # a comment [ { "\n']
PARSERS = []


class Driver(object):
    def __init__(self, config):
        pass

    def cleanup(self):
        self.scenes = []
        self.made = {}

    def reset(self, ident, params, rng=None):
        self.count = ident
        self.names = params['names'].split(',')
        self.scenes = []
        self.made = {}
        self.there = []

    # definitions by what they are
    def label(self, cls):
        if cls is None:
            return ''
        for d, c in self.made.items():
            if c is cls:
                return d[0]
        if issubclass(cls, node.PrototypedNode):
            url = protofunctions.getExternalURL(cls)
            if url:
                return url[0]
            sg = protofunctions.getSceneGraph(cls)
            number = protofunctions.getField(cls, 'number').getDefault()
            return '%s[%s]' % (number, ' '.join([self.label(type(n)) for n in sg.children]))
        if cls is getattr(basenodes, cls.__name__, None):
            return 'std'
        return 'unknown %s' % (cls,)

    def do(self, op):
        self.count += 1
        ret = getattr(self, 'do_' + op['k'])(op)
        snap = []
        for i, s in enumerate(self.scenes):
            if s is not None:
                snap.append('%d: %s' % (i + 1, ' '.join(['%s=%s' % (n, self.label(s.getProto(n))) for n in self.names])))
        return {'ret': ret, 'snap': snap}

    def do_new(self, op):
        if op['outer']:
            self.scenes.append(scenegraph.SceneGraph(root=self.scenes[op['outer'] - 1]))
        elif self.count % 2:
            self.scenes.append(scenegraph.SceneGraph())
        else:
            self.scenes.append(scenegraph.SceneGraph(root=None, protoTypes=None))
        return ['ok']

    def proto(self, n, d):
        if (d, n) not in self.made:
            self.made[d, n] = node.prototype(n, [field.newField('number', 'SFInt32', 1, 0)])
        return self.made[d, n]

    def do_add(self, op):
        self.scenes[op['i'] - 1].addProto(self.proto(op['n'], op['d']))
        return ['ok']

    def do_copy(self, op):
        self.scenes.append(self.scenes[op['i'] - 1].copy())
        return ['ok']

    def do_drop(self, op):
        ref = weakref.ref(self.scenes[op['i'] - 1])
        self.scenes[op['i'] - 1] = None
        for gen in (0, 1, 2):
            if ref() is not None:
                gc.collect(gen)
        return ['ok']

    def text(self, items, number):
        """Text of the items, in document order"""
        out = []
        for i in items:
            if i['k'] == 'node':
                out += [i['n'], '{'] + self.text(i['body'], number) + ['}']
            elif i['k'] == 'extern':
                number[0] += 1
                out += ['EXTERNPROTO', i['n'], '[', 'field', 'SFInt32', 'number', ']', '"%dext"' % number[0]]
            else:
                number[0] += 1
                out += ['PROTO', i['n'], '[', 'field', 'SFInt32', 'number', str(number[0]), ']', '{']
                out += self.text(i['body'], number) + ['}']
        return out

    def do_parse(self, op):
        sep = SEPARATORS[self.count % len(SEPARATORS)]
        text = '#VRML V2.0 utf8\n' + sep.join(self.text(op['items'], [0])) + '\n'
        # a parser is used again and again
        if not PARSERS:
            PARSERS.append(parser.buildParser())
        p = PARSERS[0]
        try:
            ok, (header, sg, end), n = p.parse(text)
        except NameError:
            return ['NameError']
        if not ok or n != len(text):
            return ['read %s %d of %d' % (ok, n, len(text))]
        self.scenes.append(sg)
        out = []
        for n in sg.children:
            l = self.label(type(n))
            if isinstance(n, node.PrototypedNode) and not protofunctions.getExternalURL(type(n)):
                # an instance's own body
                mine = '%s[%s]' % (n.number, ' '.join([self.label(type(x)) for x in n.renderedChildren()]))
                if mine != l:
                    l = '%s made %s' % (l, mine)
            out.append(l)
        return out

    def gen(self, rng):
        there = [i + 1 for i, t in enumerate(self.there) if t]
        k = rng.choice(['new', 'new', 'add', 'add', 'add', 'copy', 'drop', 'parse', 'parse'])
        if len(self.there) > 14 and k in ('new', 'copy', 'parse'):
            k = 'add'
        if k == 'parse':
            items = self.program(rng, rng.randint(1, 5), 3)
            if self.resolves(items):
                self.there.append(True)
            return dict(k=k, items=items)
        if not there:
            k = 'new'
        if k == 'new':
            self.there.append(True)
            return dict(k=k, outer=rng.choice([0] + there + there[-2:] * 2))
        i = rng.choice(there + there[-2:])
        if k == 'copy':
            self.there.append(True)
        if k == 'drop':
            if rng.random() < .5:
                return dict(k='add', i=i, n=rng.choice(self.names), d='c%d' % rng.randint(1, 9))
            self.there[i - 1] = False
        if k == 'add':
            return dict(k=k, i=i, n=rng.choice(self.names), d='c%d' % rng.randint(1, 9))
        return dict(k=k, i=i)

    def program(self, rng, n, depth):
        out = []
        for x in range(n):
            kind = rng.choice(['node'] * 3 + ['proto'] * 3 + ['extern'])
            name = rng.choice(self.names + ['Group', 'Box'])
            if kind == 'proto' and depth:
                body = self.program(rng, rng.randint(0, 3), depth - 1)
            elif kind == 'node' and depth and rng.random() < .2:
                body = [i for i in self.program(rng, 1, depth - 1) if i['k'] != 'node']
            else:
                body = []
            out.append(dict(k=kind, n=name, body=body))
        if depth == 3 and not self.resolves(out) and rng.random() < .8:
            return self.program(rng, n, depth)
        return out

    def resolves(self, items):
        """Whether all names are defined"""
        def walk(items, scopes):
            for i in items:
                if i['k'] == 'node':
                    if not any(i['n'] in s for s in scopes) or not walk(i['body'], scopes):
                        return False
                elif i['k'] == 'extern':
                    scopes[-1].add(i['n'])
                else:
                    if not walk(i['body'], scopes + [set()]):
                        return False
                    scopes[-1].add(i['n'])
            return True
        return walk(items, [{'Group', 'Box'}])
