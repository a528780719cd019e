"""Reading texts: the real side of spec/Reader.tla"""
import random
from vrml import node, field, protofunctions
from vrml.vrml97 import parser, parseprocessor, basenamespaces
from drivers import vrmltext, vrmlgen

HEADER = '#VRML V2.0 utf8'
GAPS = [' ', '\n', ', ', '\t', '\r\n', ' # USE } ] " {\n', ',', '\n\n  ', ' #\n\t', '\r', ' #DEF X\r']
PUNCT = set('{}[].')


def word(w):
    return '"%s"' % w[1:].replace('\\', '\\\\').replace('"', '\\"') if w[:1] == '"' else w


def wordy(w):
    return w not in PUNCT and w[:1] != '"'


def render(toks, rng):
    """The text of tokens, laid out somehow"""
    style = rng.choice(['plain', 'tight', 'lines', 'mixed', 'mixed', 'one'])
    one = rng.choice(GAPS)
    out = [HEADER, '\r' if style == 'one' and '\r' in one else '\n']
    if style == 'mixed' and rng.random() < .3:
        out.append(rng.choice(GAPS))
    for a, b in zip(toks, toks[1:] + ['']):
        out.append(word(a))
        if a == '.' or b == '.' or not b:
            continue
        if style == 'plain':
            gap = ' '
        elif style == 'lines':
            gap = '\n'
        elif style == 'one':
            gap = one
        elif style == 'tight':
            gap = ' '
        else:
            gap = ''.join([rng.choice(GAPS) for i in range(rng.choice([1, 1, 2]))])
        if style != 'plain' and not (wordy(a) and wordy(b)) and rng.random() < (1 if style == 'tight' else .3):
            gap = ''
        out.append(gap)
    if rng.random() < .3:
        out.append(rng.choice(GAPS))
    return ''.join(out)


class Driver(object):
    def __init__(self, config):
        self.parser = parser.buildParser()
        self.cleanup()

    def cleanup(self):
        self.again = None

    def reset(self, ident, params, rng=None):
        self.ident = ident
        self.job = params

    def parse(self, text):
        self.ident += 1
        how = self.ident % 8
        if how == 0:
            p = parser.buildParser()
        else:
            p = self.parser
        if how in (1, 2):
            processor = parseprocessor.ParseProcessor(basePrototypes=basenamespaces.basePrototypes.copy())
            return vrmltext.outcome(lambda: p.parse(text, processor=processor), False)
        return vrmltext.outcome(lambda: p.parse(text), False)

    def gen(self, rng):
        return {'k': 'parse', 'text': render(vrmlgen.program(rng), rng)}

    def do(self, op):
        return getattr(self, 'do_' + op['k'])(op)

    def do_read(self, op):
        return self.parse(render(op['toks'], random.Random(repr(op['toks']))))

    def do_parse(self, op):
        return self.parse(op['text'])

    def do_interface(self, op):
        cls = basenamespaces.basePrototypes.get(op['n'])
        if cls is None:
            return {'ret': 'no such node', 'dump': []}
        have = dict((f.name, f) for f in list(protofunctions.getFields(cls)) + list(protofunctions.getFields(cls, 1)))
        made = [cls(), self.parser.parse('%s\n%s { }' % (HEADER, op['n']))[1][1].children[0]]
        rows, read = [[self.row(x, have, n) for n in op['names']] for x in made]
        return {'ret': 'ok', 'dump': rows if rows == read else read}

    def row(self, made, have, n):
        f = have.get(n)
        if f is None:
            return n + ' is missing'
        if isinstance(f, field.Field):
            t = f.typeName()
            head = '%s %s %s' % ('exposedField' if f.exposure else 'field', t, n)
            value = f.fget(made)
            if t in vrmltext.NODES:
                return head if (list(value) == [] if t == 'MFNode' else vrmltext.null(value)) else head + ' = nodes'
            return '%s = %s' % (head, vrmltext.simple(t, value))
        return '%s %s %s' % ('eventOut' if f.direction else 'eventIn', vrmltext.typename(f), n)
