"""The weak-reference tuple: the real side of spec/WeakTuple.tla"""
import gc
from vrml import weaktuple
from drivers import weakseq
from drivers.weakseq import NONE, opt, name

T = weaktuple.WeakTuple


class Driver(weakseq.Base):
    names = ('t1', 't2', 't3', 't4')

    def reset(self, ident, params, rng=None):
        super(Driver, self).reset(ident, params, rng)
        self.subject = T()
        self.held = None
        self.size = 0

    def attempt(self, function):
        try:
            return function()
        except (ReferenceError, IndexError, ValueError) as err:
            return type(err).__name__

    def do(self, op):
        ret = self.attempt(lambda: getattr(self, 'do_' + op['k'])(op))
        t = self.subject
        return {'ret': ret, 'valid': str(bool(t.valid())), 'live': self.live(),
                'cells': [self.attempt(lambda: name(t[k])) for k in range(len(t))]}

    def do_new(self, op):
        self.subject = T(self.iterable(op['v'], (T,)))
        self.size = len(op['v'])
        return 'ok'

    def do_die(self, op):
        self.kill(op['x'])
        return 'ok'

    def do_len(self, op):
        return str(len(self.subject))

    def do_get(self, op):
        return name(self.subject[op['i']])

    def do_slice(self, op):
        s = slice(opt(op['i']), opt(op['j'])) if op['s'] == NONE else slice(opt(op['i']), opt(op['j']), op['s'])
        r = self.subject[s]
        if not isinstance(r, tuple):
            return 'not a tuple'
        return ','.join([name(x) for x in r])

    def do_iter(self, op):
        seen = []
        try:
            for x in self.subject:
                seen.append(name(x))
        except ReferenceError:
            return ','.join(seen) + ' ReferenceError'
        return ','.join(seen)

    def do_in(self, op):
        return str(bool(self.kids[op['x']] in self.subject))

    def do_count(self, op):
        return str(self.subject.count(self.kids[op['x']]))

    def other(self, op):
        o = tuple([self.kids[x] for x in op['v']])
        self.count += 1
        return T(o) if self.count % 2 else o

    def do_add(self, op):
        r = self.subject + self.other(op)
        if not isinstance(r, tuple):
            return 'not a tuple'
        return ','.join([name(x) for x in r])

    def do_hold(self, op):
        if op['how'] == 'add':
            r = self.subject + self.other(op)
        elif op['how'] == 'slice':
            r = self.subject[opt(op['i']):]
        else:
            r = list(self.subject)
        self.do_forget(op)
        self.held = r
        return ','.join([name(x) for x in r])

    def do_forget(self, op):
        self.held = None
        if self.cycle:
            gc.collect()
        return 'ok'

    def do_eq(self, op):
        return str(bool(self.subject == self.other(op)))

    def do_ne(self, op):
        return str(bool(self.subject != self.other(op)))

    def gen(self, rng):
        live = sorted(self.kids)
        if not live:
            return rng.choice([dict(k='forget'), dict(k='len'), dict(k='iter'), dict(k='get', i=rng.randint(-3, 3))])
        k = rng.choice(['len', 'get', 'get', 'slice', 'slice', 'iter', 'in', 'count', 'add', 'eq', 'ne', 'hold', 'hold', 'forget']
                       + ['die'] * (rng.random() < .3) + ['new'] * (self.size == 0) * 6)
        v = [rng.choice(live) for q in range(rng.choice([0, 1, 2, 2, 3, 4, 5, 7]))]
        n = self.size + 2
        if k == 'hold':
            how = rng.choice(['add', 'slice', 'list'])
            return dict(dict(k=k, how=how), **dict(add=dict(v=v[:2]), slice=dict(i=rng.randint(-n, n)), list={})[how])
        if k in ('len', 'iter', 'forget'):
            return dict(k=k)
        if k == 'get':
            return dict(k=k, i=rng.randint(-n, n))
        if k == 'slice':
            b = lambda: rng.choice([rng.randint(-n, n)] * 3 + [NONE])
            return dict(k=k, i=b(), j=b(), s=rng.choice([NONE, NONE, 1, 2, -1, -2, 0]))
        if k in ('in', 'count', 'die'):
            return dict(k=k, x=rng.choice(live))
        return dict(k=k, v=v)
