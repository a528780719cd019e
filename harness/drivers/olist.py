"""The observable list: the real side of spec/OList.tla"""
from vrml import olist, node
from pydispatch import dispatcher

NONE = 99


def opt(i):
    return None if i == NONE else i


class Plain(object):
    """A child which is not a node, and counts as false

    All of these are equal, but while something is looked for.
    """
    alike = True

    def __eq__(self, other):
        return self is other or (Plain.alike and isinstance(other, Plain))

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __bool__(self):
        return False


class Driver(object):
    def __init__(self, config):
        dispatcher.connect(self.receive, signal=dispatcher.Any, sender=dispatcher.Any)
        self.active = False

    def cleanup(self):
        self.active = False
        self.list = self.sender = None
        self.kids = {}

    def reset(self, ident, params, rng=None):
        cls = (node.Node, Plain)[ident % 2]
        self.count = ident
        self.kids = dict(('c%d' % i, cls()) for i in range(1, params.get('kids', 4) + 1))
        self.names = dict((id(o), n) for n, o in self.kids.items())
        self.list = olist.OList()
        self.sender = self.list
        self.extra = {}
        if ident % 3 == 1:
            self.sender = node.Node()
            self.extra = {'field': 'f'}
            self.list.setSender(self.sender, field='f')
        elif ident % 3 == 2:
            # the sender went away, the list speaks for itself
            gone = node.Node()
            self.list.setSender(gone)
            del gone
        self.active = True

    def name(self, o):
        return self.names.get(id(o), 'unknown %r' % (o,))

    def contents(self):
        return [self.name(x) for x in self.list]

    def receive(self, signal=None, sender=None, **named):
        if not self.active or signal not in ('new', 'added', 'del', 'removed'):
            return
        named = dict((k, v) for k, v in named.items())
        wrong = ''
        for k, v in self.extra.items():
            if named.pop(k, None) != v:
                wrong += ' without %s' % k
        if signal in ('new', 'del'):
            if sender is not self.sender:
                wrong += ' from another sender'
            child = named.pop('value', None)
        else:
            child = sender
            if named.pop('parent', None) is not self.sender:
                wrong += ' with another parent'
        if named:
            wrong += ' with more'
        text = self.name(child) + wrong
        self.log[signal].append((text, ' when ' + ','.join(self.contents())))

    def do(self, op):
        self.log = {'new': [], 'added': [], 'del': [], 'removed': []}
        Plain.alike = op['k'] not in ('remove', 'index', 'pslice')
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (IndexError, ValueError, TypeError) as err:
            ret = type(err).__name__
        full = dict((k, [a + b for a, b in v]) for k, v in self.log.items())
        return {'ret': ret, 'list': self.contents(),
                'addeds': [a for a, b in self.log['new']], 'dels': [a for a, b in self.log['del']],
                'news': full['new'], 'olds': full['del'], 'parents': full['added'], 'orphans': full['removed']}

    def values(self, op):
        """The values as some kind of iterable"""
        v = [self.kids[x] for x in op['v']]
        self.count += 1
        kind = self.count % 4
        return (v, tuple(v), iter(v), (x for x in v))[kind]

    def do_append(self, op):
        self.list.append(self.kids[op['x']])
        return 'ok'

    def do_insert(self, op):
        self.list.insert(op['i'], self.kids[op['x']])
        return 'ok'

    def do_extend(self, op):
        self.list.extend(self.values(op))
        return 'ok'

    def do_iadd(self, op):
        l = self.list
        l += self.values(op)
        return 'ok' if l is self.list else 'another list'

    def do_imul(self, op):
        l = self.list
        l *= op['i']
        return 'ok' if l is self.list else 'another list'

    def do_clear(self, op):
        self.list.clear()
        return 'ok'

    def do_reverse(self, op):
        self.list.reverse()
        return 'ok'

    def do_sort(self, op):
        self.list.sort(key=self.name)
        return 'ok'

    def do_pop(self, op):
        return self.name(self.list.pop() if op['i'] == NONE else self.list.pop(op['i']))

    def do_remove(self, op):
        self.list.remove(self.kids[op['x']])
        return 'ok'

    def do_del(self, op):
        del self.list[op['i']]
        return 'ok'

    def do_put(self, op):
        self.list[op['i']] = self.kids[op['x']]
        return 'ok'

    def do_get(self, op):
        return self.name(self.list[op['i']])

    def do_index(self, op):
        return str(self.list.index(self.kids[op['x']]))

    def do_dslice(self, op):
        if op['s'] == NONE:
            del self.list[opt(op['i']):opt(op['j'])]
        else:
            del self.list[opt(op['i']):opt(op['j']):op['s']]
        return 'ok'

    def do_pslice(self, op):
        if op['s'] == NONE:
            self.list[opt(op['i']):opt(op['j'])] = self.values(op)
        else:
            self.list[opt(op['i']):opt(op['j']):op['s']] = self.values(op)
        return 'ok'

    def do_notiterable(self, op):
        if op['how'] == 'extend':
            self.list.extend(5)
        elif op['how'] == 'iadd':
            l = self.list
            l += 5
        else:
            self.list[0:1] = 5
        return 'ok'

    def gen(self, rng):
        x = rng.choice(sorted(self.kids))
        n = len(self.list) if isinstance(self.list, list) else 3
        i = rng.randint(-n - 2, n + 1)
        j = rng.randint(-n - 2, n + 1)
        k = rng.choice(['append', 'insert', 'extend', 'iadd', 'imul', 'clear', 'reverse', 'sort', 'pop', 'remove',
                        'index', 'del', 'get', 'put', 'dslice', 'dslice', 'pslice', 'pslice', 'pslice', 'notiterable'])
        if n > 12 and k in ('append', 'insert', 'extend', 'iadd', 'imul', 'pslice'):
            k = rng.choice(['clear', 'dslice', 'pop'])
        bound = lambda b: rng.choice([b, b, b, NONE])
        v = [rng.choice(sorted(self.kids)) for q in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        s = rng.choice([NONE, NONE, 1, 2, -1, -2, 3, 0])
        if k in ('append', 'remove', 'index'):
            return dict(k=k, x=x)
        if k in ('insert', 'put'):
            return dict(k=k, x=x, i=i)
        if k in ('extend', 'iadd'):
            return dict(k=k, v=v)
        if k == 'imul':
            return dict(k=k, i=rng.choice([-1, 0, 1, 2, 2, 3]))
        if k in ('clear', 'reverse', 'sort'):
            return dict(k=k)
        if k == 'pop':
            return dict(k=k, i=bound(i))
        if k in ('del', 'get'):
            return dict(k=k, i=i)
        if k == 'dslice':
            return dict(k=k, i=bound(i), j=bound(j), s=s)
        if k == 'pslice':
            if rng.random() < .4 and s not in (0, NONE):
                # as many as the slice has
                m = len(range(n)[opt(i):opt(j):s])
                v = [rng.choice(sorted(self.kids)) for q in range(m)]
            return dict(k=k, i=i, j=j, s=s, v=v)
        return dict(k=k, how=rng.choice(['extend', 'iadd', 'pslice']))
