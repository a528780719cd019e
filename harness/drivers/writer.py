"""Writing scenes: the real side of spec/Writer.tla"""
import json, os, random, subprocess, sys
import numpy
from pydispatch import dispatcher
from vrml import node, field, protofunctions, route
from vrml.vrml97 import parser, linearise, basenamespaces
from drivers import vrmltext, vrmlgen, vrmlmake, reader

STYLES = ('plain', 'plain', 'plain', 'minimal1', 'comments', 'bare', 'spaced')
FIELDS = ('x', 'translation', 'set_y', 'children_changed', 'on')
TO = ('x', 'set_scale', 'TOP', 'addChildren')


def token(w):
    return {'t': 's', 'v': [vrmltext.char(c) for c in w[1:]]} if w[:1] == '"' else {'t': 'w', 'v': w}


def words(toks):
    return ['"' + vrmlmake.chars(x['v']) if x['t'] == 's' else x['v'] for x in toks]


def order(name):
    return [ord(c) for c in name]


# what each type can hold exactly, written as the shortest decimal
DOUBLES = ['0', '1', '-1', '2.5', '-.125', '1e22', '1.7976931348623157e308', '5e-324', '0.30000000000000004', '123456789.123', '-0.001',
           '1e-05', '100000000000000000', '2.2250738585072014e-308', '0.1', '1e16', '-12345.678']
SINGLES = ['0', '1', '-1', '2.5', '-.125', '16777216', '0.1', '3.4028235e+38', '1e-45', '1.1754944e-38', '-0.001', '1e-05', '1e16',
           '0.33333334', '123456.79', '-7.5e9']
INTEGERS = ['0', '1', '-1', '255', '2147483647', '-2147483648', '65536', '-12', '1000000', '99999']
COLORS = ['0', '1', '.5', '0.25', '0.1', '0.33333334', '1e-05']


CHARS = '"\\#{}[],.\n\r\t \'a0-/U$' + '"\\' * 4 + '\x00\x01\x7f\x85\xe9\u4e2d\u2028\ufeff\U0001f600\x0b\f'
PLAIN = '"\\#{}[],.\n\r\t \'an0-/' + '"\\' * 2


def program(rng, strings):
    """The tokens of a program in which nothing is declared twice"""
    g = vrmlgen.Gen(rng, rng.choice([1, 3, 5, 9, 12]))
    g.unique = True
    g.words = strings
    g.statements(rng.choice([1, 1, 2, 3]))
    return g.toks


DEFAULTS = vrmlgen.defaults()

# where the writing of values changes its layout
LENGTHS = {'Int32': (99, 100, 101, 201), 'Float': (99, 100, 101, 201), 'Time': (99, 100, 101, 200), 'Vec2f': (49, 50, 51, 101),
           'Vec3f': (32, 33, 34, 67), 'Color': (32, 33, 34, 67), 'Rotation': (24, 25, 26, 51), 'String': (3, 9, 20, 41)}
HOLDERS = (('Coordinate', 'point', 'Vec3f'), ('Color', 'color', 'Color'), ('TextureCoordinate', 'point', 'Vec2f'),
           ('OrientationInterpolator', 'keyValue', 'Rotation'), ('ScalarInterpolator', 'key', 'Float'), ('Text', 'string', 'String'),
           ('PositionInterpolator', 'keyValue', 'Vec3f'), ('WorldInfo', 'info', 'String'), ('Extrusion', 'spine', 'Vec3f'))


def longer(rng):
    """The tokens of a program with long lists of values"""
    g = vrmlgen.Gen(rng, 1)
    g.words = rng.choice([None, PLAIN])
    for i in range(rng.choice([1, 1, 2])):
        if rng.random() < .5:
            name, f, base = rng.choice(HOLDERS)
            head = [name, '{', f]
        else:
            base = rng.choice(sorted(LENGTHS))
            head = ['Script', '{', 'field', 'MF' + base, 'many']
        count = rng.choice(LENGTHS[base])
        g.emit(*(head + ['['] + sum([g.item(base) for j in range(count)], []) + [']', '}']))
    return g.toks


def near(rng, t, word):
    """A number which is nearly the given one"""
    v = float(word)
    by = rng.choice([1e-16, 1e-12, 1e-9, 1e-8, 1e-7, 3e-7, 1e-6, 5e-6, 1e-5, 1e-4, 1e-3]) * rng.choice([1, -1])
    v = v + (v * by if rng.random() < .8 else by)
    if t[2:] == 'Color':
        v = min(max(v, 0.), 1.)
    if t[2:] in ('Float', 'Time'):
        return repr(v)
    return str(numpy.float32(v))


def nearly(rng):
    """The tokens of a program with values which are nearly what they are by default"""
    toks = []
    for i in range(rng.choice([1, 2, 4])):
        name = rng.choice(rng.choice(DEFAULTS)[:1])
        toks += [name, '{']
        for n, t, f, words in DEFAULTS:
            if n != name or rng.random() < .3:
                continue
            j = rng.randrange(len(words))
            words = [near(rng, t, w) if k == j or rng.random() < .1 else w for k, w in enumerate(words)]
            toks += [f] + (['['] + words + [']'] if t[:2] == 'MF' else words)
        toks.append('}')
    return toks


def string(rng):
    return '"' + ''.join([rng.choice(PLAIN) for i in range(rng.choice([0, 1, 2, 3, 5, 12, 70]))])


class Elsewhere(object):
    """A process in which nothing but what is asked for happens"""
    def __init__(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.process = subprocess.Popen([sys.executable, os.path.join(here, 'elsewhere.py')], env=dict(os.environ, PYTHONHASHSEED='7'),
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, job):
        self.process.stdin.write(json.dumps(job) + '\n')
        self.process.stdin.flush()
        return json.loads(self.process.stdout.readline() or '["no answer"]')

    def close(self):
        self.process.kill()
        self.process.communicate()


class Driver(object):
    limit = 60
    elsewhere = None

    def __init__(self, config):
        self.parser = parser.buildParser()
        self.cleanup()

    def cleanup(self):
        self.scenes = {}
        self.texts = []
        self.pending = []

    def reset(self, ident, params, rng=None):
        self.cleanup()
        self.ident = self.started = ident
        self.done = []
        self.rng = random.Random('writer %s' % ident)
        self.job = params
        self.strings = params.get('strings')
        self.pending = list(params.get('ops') or [])
        self.count = 0

    # ---------------------------------------------- operations
    def gen(self, rng):
        if 'ops' in self.job:
            return self.pending.pop(0) if self.pending else None
        self.count += 1
        if 'zeros' in self.job:
            k = 'load' if self.count == 1 else rng.choice(['write', 'alone', 'noise'])
            if k in ('load', 'noise'):
                g = vrmlgen.Gen(rng, rng.choice([1, 3, 5]))
                g.unique = g.zeros = True
                g.statements(rng.choice([1, 2]))
                return {'k': k, 's': 1, 'toks': [token(w) for w in g.toks], 'how': rng.choice(['parse', 'make', 'keywords'])}
            return {'k': k, 's': 1, 'style': rng.choice(STYLES)}
        if 'lengths' in self.job or 'nearly' in self.job:
            if self.count == 1:
                self.toks = [token(w) for w in (longer if 'lengths' in self.job else nearly)(rng)]
                return {'k': 'load', 's': 1, 'toks': self.toks, 'how': rng.choice(['parse', 'make', 'keywords'])}
            return {'k': 'write', 's': 1, 'style': rng.choice(STYLES[2:])}
        if self.count <= 1 or (self.count == 2 and rng.random() < .4):
            if self.count == 1:
                self.toks = [token(w) for w in program(rng, CHARS if self.strings else None)]
                return {'k': 'load', 's': 1, 'toks': self.toks, 'how': rng.choice(['parse', 'make', 'keywords'])}
            same = rng.random() < .7
            return {'k': 'load', 's': 2, 'toks': self.toks if same else [token(w) for w in program(rng, CHARS if self.strings else None)],
                    'how': rng.choice(['parse', 'make', 'keywords'])}
        s = rng.choice([1, 1, 2])
        k = rng.choice(['write'] * 5 + ['alone', 'alone'] + ['part'] * 3 + ['noise'] + ([] if self.strings else ['set', 'set', 'set', 'kid', 'new', 'cut', 'route']))
        def at():
            return rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12])
        j = rng.randrange(12)
        if k in ('write', 'alone'):
            return {'k': k, 's': s, 'style': rng.choice(STYLES)}
        if k == 'part':
            return {'k': k, 's': s, 'style': rng.choice(STYLES), 'ids': [at() for i in range(rng.choice([1, 1, 1, 2, 3]))]}
        if k == 'noise':
            return {'k': k, 'toks': [token(w) for w in vrmlgen.program(rng)]}
        if k == 'set':
            t = rng.choice(vrmlgen.SF + vrmlgen.MF)
            return {'k': k, 's': s, 'n': at(), 'j': j, 't': t, 'items': [token(w) for w in self.items(rng, t)]}
        if k == 'kid':
            return {'k': k, 's': s, 'n': at(), 'j': j, 'o': at()}
        if k == 'new':
            return {'k': k, 's': s, 'n': at(), 'j': j, 'type': rng.choice(['Box', 'Group', 'Transform', 'Text', 'Shape']),
                    'def': rng.choice(['', '', 'N_2', 'Y', 'Z_Z'])}
        if k == 'cut':
            return {'k': k, 's': s, 'n': at(), 'j': j, 'i': rng.randrange(6)}
        return {'k': k, 's': s, 'a': at(), 'b': at(), 'fa': rng.choice(FIELDS), 'fb': rng.choice(TO)}

    def items(self, rng, t):
        base = t[2:]
        if base == 'Image':
            w, h = rng.choice([(0, 0), (1, 1), (2, 3)])
            return [str(w), str(h), str(rng.choice([1, 3, 4]))] + [rng.choice(['0', '255', '65535', '7']) for i in range(w * h)]
        size = vrmlmake.SIZE.get(base, 1)
        count = 1 if t[:2] == 'SF' else rng.choice([0, 1, 2, 3, 3, 5, 60, 101, 250] if base in ('Int32', 'Float') else [0, 1, 2, 3, 3, 5])
        return [self.item(rng, base, t) for i in range(count * size)]

    def item(self, rng, base, t):
        if base == 'Bool':
            return rng.choice(['TRUE', 'FALSE'])
        if base == 'String':
            return string(rng)
        if base == 'Int32':
            return rng.choice(INTEGERS)
        if base == 'Color':
            return rng.choice(COLORS)
        return rng.choice(DOUBLES if base in ('Float', 'Time') else SINGLES)

    def do(self, op):
        k = op['k']
        if k in ('load', 'write', 'part', 'noise', 'alone'):
            obs = getattr(self, 'do_' + k)(op)
        else:
            obs = self.edit(op)
        if k not in ('part', 'noise', 'alone') and (k != 'write' or op['named']):
            self.done.append(op)
        return obs

    # ---------------------------------------------- scenes
    def scene(self, s):
        if s not in self.scenes:
            self.scenes[s] = basenamespaces.basePrototypes['sceneGraph'](protoTypes=basenamespaces.basePrototypes.copy())
        return self.scenes[s]

    def parse(self, text):
        return self.parser.parse(text)[1][1]

    def do_load(self, op):
        self.ident += 1
        how = op.get('how') or ('parse', 'make', 'keywords')[self.ident % 3]
        try:
            if how == 'parse':
                sg = self.parse(reader.render(words(op['toks']), self.rng))
            else:
                sg = vrmlmake.scene(op['toks'], how == 'keywords')
        except (ValueError, TypeError, NameError, AttributeError, SyntaxError) as err:
            return {'ret': '%s: %s' % (type(err).__name__, err), 'scene': []}
        self.scenes[op['s']] = sg
        return {'ret': 'ok', 'scene': vrmltext.dump(sg, False)}

    def do_noise(self, op):
        try:
            self.write(self.parse(reader.render(words(op['toks']), self.rng)), 'minimal1')
        except (ValueError, TypeError, NameError, AttributeError, SyntaxError, IndexError):
            pass
        return {'ret': 'ok'}

    # ---------------------------------------------- numbers of nodes
    def inside(self, n, found):
        """The nodes below (and) n"""
        if vrmltext.null(n) or id(n) in found:
            return found
        found[id(n)] = n
        for f in self.nodefields(n):
            if not self.default(n, f):
                for x in self.kids(n, f):
                    self.inside(x, found)
        return found

    def declared(self, n, f):
        """Is it a field the Script node itself declares?"""
        return protofunctions.protoName(n) == 'Script' and f.name not in vrmltext.SCRIPT

    def default(self, n, f):
        """Has it the (shared) default nodes of the interface?"""
        if self.declared(n, f):
            return False
        default = f.coerce(f.getDefault())
        default = list(default) if vrmltext.typename(f) == 'MFNode' else [default]
        return [id(x) for x in self.kids(n, f)] == [id(x) for x in default]

    def fields(self, n, types):
        """The fields an edit may change, in order"""
        found = [f for f in protofunctions.getFields(n) if isinstance(f, field.Field) and f.name[:1] != ' '
                 and f.name not in vrmltext.HIDDEN and vrmltext.typename(f) in types]
        return sorted(found, key=lambda f: order(f.name))

    def nodefields(self, n):
        return self.fields(n, vrmltext.NODES)

    def kids(self, n, f):
        value = f.fget(n)
        return list(value) if vrmltext.typename(f) == 'MFNode' else [value]

    def within(self, sg):
        found = {}
        for n in sg.children:
            self.inside(n, found)
        return found

    def numbered(self, sg):
        """number -> node, of the nodes of the scene itself"""
        d = vrmltext.Dump(sg, False)
        mine = self.within(sg)
        return dict((k, mine[i]) for i, k in d.num.items() if i in mine)

    # ---------------------------------------------- edits
    def edit(self, op):
        sg = self.scene(op['s'])
        nodes = self.numbered(sg)
        ok = getattr(self, 'edit_' + op['k'])(sg, nodes, op)
        return {'ret': 'ok' if ok else 'none', 'scene': vrmltext.dump(sg, False)}

    def free(self, sg, n):
        return n is not None and not any(r.source is n or r.destination is n for r in sg.routes)

    def edit_set(self, sg, nodes, op):
        n = nodes.get(op['n'])
        if not self.free(sg, n):
            return False
        fs = self.fields(n, (op['t'],))
        if not fs:
            return False
        value = vrmlmake.convert(op['t'], words_of(op['items']))
        setattr(n, fs[op['j'] % len(fs)].name, value)
        return True

    def own(self, n, f):
        return not self.default(n, f) or all(vrmltext.null(x) for x in self.kids(n, f))

    def give(self, n, j, kid):
        fs = [f for f in self.nodefields(n) if self.own(n, f)]
        if not fs:
            return None
        f = fs[j % len(fs)]
        if vrmltext.typename(f) == 'SFNode':
            setattr(n, f.name, kid)
        elif self.rng.random() < .5:
            f.fget(n).append(kid)
        else:
            setattr(n, f.name, list(f.fget(n)) + [kid])
        return True

    def tidy(self, sg):
        mine = self.within(sg)
        for name, n in list(sg.defNames.items()):
            if id(n) not in mine:
                del sg.defNames[name]
        sg.routes[:] = [r for r in sg.routes if id(r.source) in mine and id(r.destination) in mine]

    def edit_kid(self, sg, nodes, op):
        n, o = nodes.get(op['n']), nodes.get(op['o'])
        if not self.free(sg, n) or o is None or not protofunctions.defName(o) or id(n) in self.inside(o, {}):
            return False
        if not self.give(n, op['j'], o):
            return False
        self.tidy(sg)
        return True

    def edit_new(self, sg, nodes, op):
        n = nodes.get(op['n'])
        if not self.free(sg, n) or op['def'] and sg.getDEF(op['def']) is not None:
            return False
        made = basenamespaces.basePrototypes[op['type']]()
        if op['def']:
            protofunctions.defName(made, op['def'])
        if not self.give(n, op['j'], made):
            return False
        if op['def']:
            sg.regDefName(op['def'], made)
        self.tidy(sg)
        return True

    def edit_cut(self, sg, nodes, op):
        n = nodes.get(op['n'])
        if not self.free(sg, n):
            return False
        fs = [f for f in self.nodefields(n) if self.own(n, f) and
              (len(self.kids(n, f)) if vrmltext.typename(f) == 'MFNode' else not vrmltext.null(self.kids(n, f)[0]))]
        if not fs:
            return False
        f = fs[op['j'] % len(fs)]
        if vrmltext.typename(f) == 'SFNode':
            setattr(n, f.name, node.NULL)
        else:
            kids = f.fget(n)
            i = op['i'] % len(kids)
            if self.rng.random() < .5:
                del kids[i]
            else:
                setattr(n, f.name, kids[:i] + kids[i + 1:])
        self.tidy(sg)
        return True

    def edit_route(self, sg, nodes, op):
        a, b = nodes.get(op['a']), nodes.get(op['b'])
        if a is None or b is None:
            return False
        sg.addRoute(a, op['fa'], b, op['fb'])
        return True

    # ---------------------------------------------- writing
    def write(self, what, style):
        if style == 'plain':
            return what.toString() if isinstance(what, node.Node) else linearise.linearise(what)
        if style == 'minimal1':
            return linearise.linearise(what, linearise.minimal1)
        if style == 'comments':
            return linearise.linearise(what, EndComments=0)
        if style == 'bare':
            return linearise.Lineariser({k: v for k, v in linearise.defaults.items() if k != 'EndComments'}).linear(what)
        if style == 'spaced':
            return linearise.linearise(what, indent=' ', numsep=' ', subelspacer=' ')

    def do_write(self, op):
        sg = self.scene(op['s'])
        before = vrmltext.Dump(sg, False)
        unnamed = [n for n in before.keep if not protofunctions.defName(n)]
        def named():
            mine = self.within(sg)
            op['named'] = [{'k': before.num[id(n)], 'name': protofunctions.defName(n)} for n in unnamed
                           if id(n) in mine and protofunctions.defName(n)]
        return self.written(op, sg, sg, before, named)

    def do_alone(self, op):
        """What somebody writes who knows nothing but the scene"""
        sg = self.scene(op['s'])
        if any(not protofunctions.defName(n) for r in sg.routes for n in (r.source, r.destination)):
            op['text'] = []
            return {'ret': 'none', 'steady': ''}
        ops = [x for x in self.done if x['s'] == op['s']]
        if self.elsewhere is None:
            self.elsewhere = Elsewhere()
        text = None
        try:
            text = self.elsewhere.ask({'ident': self.started, 'params': {}, 'ops': ops, 's': op['s'], 'style': op['style']})
        finally:
            if text is None:
                self.elsewhere.close()
                self.elsewhere = None
        if isinstance(text, list):
            op['text'] = []
            return {'ret': text[0], 'steady': ''}
        op['text'] = [vrmltext.char(c) for c in text]
        return {'ret': 'ok', 'steady': 'the same text'}

    def name(self, op):
        """Give the names which writing gave"""
        sg = self.scene(op['s'])
        nodes = self.numbered(sg)
        for x in op['named']:
            sg.regDefName(x['name'], nodes[x['k']])

    def do_part(self, op):
        sg = self.scene(op['s'])
        nodes = self.numbered(sg)
        before = vrmltext.Dump(sg, False)
        what = [nodes.get(k) for k in op['ids']]
        op['text'] = []
        if not what or any(n is None for n in what):
            return self.nothing()
        under = [self.inside(n, {}) for n in what]
        for i, n in enumerate(what):
            for j in range(len(what)):
                if i != j and id(n) in under[j] and not protofunctions.defName(n):
                    return self.nothing()
        return self.written(op, what[0] if len(what) == 1 else what, sg, before, lambda: None)

    def nothing(self):
        return {'ret': 'none', 'names': '', 'scene': [], 'sent': [], 'kept': True, 'means': '', 'again': [], 'twice': [], 'steady': ''}

    def written(self, op, what, sg, before, named):
        sent = []
        def receive(signal, sender, **rest):
            if not (isinstance(signal, tuple) and len(signal) == 2 and signal[1] is node.Node.DEF):
                sent.append('%s' % (signal,))
        text = None
        dispatcher.connect(receive, signal=dispatcher.Any, sender=dispatcher.Any)
        try:
            text = self.write(what, op['style'])
            ret = 'ok'
        finally:
            dispatcher.disconnect(receive, signal=dispatcher.Any, sender=dispatcher.Any)
        named()
        op['text'] = [vrmltext.char(c) for c in text]
        after = vrmltext.Dump(sg, False)
        again, twice = ['not read'], ['not read']
        try:
            read = self.parse(text)
            again = vrmltext.dump(read, True)
            twice = vrmltext.dump(self.parse(self.write(read, op['style'])), True)
        except (ValueError, TypeError, NameError, AttributeError, SyntaxError, IndexError) as err:
            ret = '%s: %s' % (type(err).__name__, err)
        return {'ret': ret, 'names': 'fresh', 'scene': after.out, 'sent': sent,
                'kept': [id(n) for n in before.keep] == [id(n) for n in after.keep],
                'means': 'the same', 'again': again, 'twice': twice, 'steady': 'the same text'}


def words_of(items):
    return [vrmlmake.chars(x['v']) if x['t'] == 's' else x['v'] for x in items]
