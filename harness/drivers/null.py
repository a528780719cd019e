"""The one NULL node: the real side of spec/Null.tla"""
import copy, pickle
from vrml import node, field, fieldtypes, copier
from vrml.vrml97 import parser, linearise, basenodes
from vrml.node import NULL

MEMBERS = ['NULL', 'n1', 'n2', 'other']
SPELLED = ['none', '[NULL]', '[none]', '(n1)']
REJECTED = ['zero', 'text', 'pair', '[]', 'false']
NONE = 99

Must = node.SFNode('must', 1)
Must.allowNULL = 0
Holder = node.prototype('Holder', (node.SFNode('sf', 1), Must, node.MFNode('kids', 1)), baseClasses=(node.Node,))
Other = node.prototype('NULL', (fieldtypes.SFInt32('x', 1, 0),), baseClasses=(node.Node,))
Proto = node.prototype('NULL')
PARSER = parser.buildParser()


def opt(i):
    return None if i == NONE else i


def yes(x):
    return 'yes' if x else 'no'


class Driver(object):
    def __init__(self, config):
        pass

    def cleanup(self):
        self.holder = self.things = None

    def reset(self, ident, params, rng=None):
        n1, n2 = basenodes.Group(), basenodes.Shape() if ident % 2 else basenodes.Transform(DEF='NULL')
        other = (Other, Proto)[ident % 2]()
        self.count = ident
        self.things = {'NULL': NULL, 'n1': n1, 'n2': n2, 'other': other, 'none': None, '[NULL]': [NULL], '[none]': (None,),
                       '(n1)': (n1,), 'zero': 0, 'text': 'NULL', 'pair': [NULL, NULL], '[]': [], 'false': False}
        self.holder = Holder()
        self.list = []
        self.set = set()

    def name(self, o):
        for n in MEMBERS:
            if o is self.things[n]:
                return n
        return 'unknown %r' % (o,)

    def snap(self):
        h = self.holder
        return {'sf': self.name(h.sf), 'must': self.name(h.must), 'kids': [self.name(x) for x in h.kids],
                'list': [self.name(x) for x in self.list],
                'set': sorted([self.name(x) for x in self.set], key=lambda n: MEMBERS.index(n) if n in MEMBERS else 9)}

    def seq(self, op):
        return self.holder.kids if op['w'] == 'kids' else self.list

    def values(self, op):
        v = [self.things[x] for x in op['v']]
        self.count += 1
        return tuple(v) if self.count % 2 else v

    def do(self, op):
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (IndexError, ValueError, TypeError, AttributeError, KeyError) as err:
            ret = [type(err).__name__]
        return {'ret': ['ok'] if ret is None else ret, 'snap': self.snap()}

    def do_eq(self, op):
        x = self.things[op['x']]
        return [yes(NULL == x), yes(x == NULL), yes(not (NULL != x)), yes(not (x != NULL)), yes(NULL in [x])]

    def do_truth(self, op):
        return [yes(self.things[op['x']])]

    def do_another(self, op):
        how = op['how']
        n1 = self.things['n1']
        if how == 'copy':
            made = [copy.copy(NULL), copy.copy([NULL])[0]]
        elif how == 'deepcopy':
            made = [copy.deepcopy(NULL)]
        elif how == 'list':
            d = copy.deepcopy([NULL, {'a': (NULL,)}])
            made = [d[0], d[1]['a'][0]]
        elif how == 'pickle':
            made = [pickle.loads(pickle.dumps(NULL, p)) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
            made.append(pickle.loads(pickle.dumps([NULL, NULL]))[1])
        elif how == 'clone':
            made = [NULL.clone()]
        elif how == 'method':
            made = [NULL.copy()]
        elif how == 'copier':
            c = copier.Copier()
            made = [NULL.copy(c), NULL.copy(copier=c)]
            n1.copy(c)
            made.append(NULL.copy(c))
        elif how == 'none':
            h = Holder(sf=None, kids=[None, (None,)])
            made = [h.sf] + list(h.kids)
        elif how == 'default':
            h = Holder()
            made = [h.sf, node.SFNode('other', 1).getDefault(), basenodes.Shape().geometry, node.Node().rootSceneGraph]
        else:
            made = []
            for text in ('Shape { geometry NULL }', 'Shape { appearance NULL }', 'DEF NULL_ Shape { geometry NULL appearance NULL }'):
                s = PARSER.parse('#VRML V2.0 utf8\n%s\n' % text)[1][1].children[0]
                made += [s.geometry, s.appearance]
        return sorted(set(self.name(m) for m in made))

    def do_texts(self, op):
        return [str(NULL), linearise.linearise(NULL).split('\n', 1)[-1].strip()]

    def do_put(self, op):
        setattr(self.holder, op['f'], self.things[op['x']])

    def do_del(self, op):
        # deleting what was never set is an error, of no interest here
        if op['f'] in self.holder.__dict__:
            delattr(self.holder, op['f'])

    def do_assign(self, op):
        self.holder.kids = self.values(op)

    def do_single(self, op):
        self.holder.kids = self.things[op['x']]

    def do_append(self, op):
        self.seq(op).append(self.things[op['x']])

    def do_remove(self, op):
        self.seq(op).remove(self.things[op['x']])

    def do_item(self, op):
        self.seq(op)[op['i']] = self.things[op['x']]

    def do_slice(self, op):
        self.seq(op)[opt(op['i']):opt(op['j'])] = self.values(op)

    def do_find(self, op):
        s, x = self.seq(op), self.things[op['x']]
        try:
            first = str(s.index(x))
        except ValueError:
            first = 'ValueError'
        return [first, str(s.count(x)), yes(x in s)]

    def do_true(self, op):
        return [self.name(x) for x in self.seq(op) if x]

    def do_add(self, op):
        self.set.add(self.things[op['x']])

    def do_discard(self, op):
        self.set.discard(self.things[op['x']])

    def do_has(self, op):
        return [yes(self.things[op['x']] in self.set)]

    def do_copy(self, op):
        new = self.holder.copy(copier.Copier() if self.count % 2 else None)
        self.count += 1
        copies = {}
        ret = []
        pairs = [(self.holder.sf, new.sf), (self.holder.must, new.must)] + list(zip(self.holder.kids, new.kids))
        if len(new.kids) != len(self.holder.kids):
            ret.append('%s kids' % len(new.kids))
        for old, made in pairs:
            if made is NULL:
                ret.append('NULL')
            elif self.name(made) in MEMBERS:
                ret.append('the same ' + self.name(made))
            elif type(made) is not type(old):
                ret.append('a copy of another type')
            elif copies.setdefault(id(old), made) is not made:
                ret.append('another copy of ' + self.name(old))
            else:
                ret.append('copy of ' + self.name(old))
        return ret

    def gen(self, rng):
        x = rng.choice(MEMBERS)
        w = rng.choice(['kids', 'kids', 'list'])
        i = rng.randint(-7, 6)
        j = rng.randint(-7, 6)
        n = 3
        k = rng.choice(['eq', 'truth', 'another', 'texts', 'put', 'put', 'put', 'del', 'assign', 'single', 'append', 'append', 'remove',
                        'item', 'slice', 'slice', 'find', 'true', 'add', 'discard', 'has', 'copy', 'copy'])
        if k == 'eq':
            return dict(k=k, x=rng.choice(MEMBERS + SPELLED + REJECTED))
        if k == 'truth' or k in ('add', 'discard', 'has'):
            return dict(k=k, x=x)
        if k == 'another':
            return dict(k=k, how=rng.choice(['copy', 'deepcopy', 'pickle', 'clone', 'method', 'copier', 'list', 'none',
                                             'default', 'parsed']))
        if k == 'put':
            return dict(k=k, f=rng.choice(['sf', 'must']), x=rng.choice(MEMBERS + SPELLED + REJECTED))
        if k == 'del':
            return dict(k=k, f=rng.choice(['sf', 'must']))
        if k == 'assign':
            bad = REJECTED if rng.random() < .15 else []
            return dict(k=k, v=[rng.choice(MEMBERS + ['NULL', 'none'] + SPELLED + bad) for q in range(rng.randint(0, 6))])
        if k == 'single':
            return dict(k=k, x=rng.choice(MEMBERS + ['none']))
        if k in ('append', 'remove', 'find'):
            return dict(k=k, w=w, x=x)
        if k == 'item':
            return dict(k=k, w=w, x=x, i=i)
        if k == 'slice':
            return dict(k=k, w=w, v=[rng.choice(MEMBERS + ['NULL']) for q in range(rng.randint(0, 4))],
                        i=rng.choice([i, NONE]), j=rng.choice([j, NONE]))
        if k == 'true':
            return dict(k=k, w=w)
        return dict(k=k)
