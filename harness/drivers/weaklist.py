"""The weak-reference list: the real side of spec/WeakList.tla"""
import weakref
from vrml import weaklist
from drivers import weakseq
from drivers.weakseq import NONE, opt, name

W = weaklist.WeakList


class Driver(weakseq.Base):
    names = ('a1', 'a2', 'b1', 'c1')
    cls = weakseq.Valued

    def reset(self, ident, params, rng=None):
        super(Driver, self).reset(ident, params, rng)
        self.list = W()
        self.subject = self.list

    def cleanup(self):
        super(Driver, self).cleanup()
        self.list = None

    def do(self, op):
        try:
            ret = getattr(self, 'do_' + op['k'])(op)
        except (IndexError, ValueError) as err:
            ret = type(err).__name__
        return {'ret': ret, 'list': self.contents(), 'live': self.live()}

    def contents(self):
        return [name(x) for x in self.list]

    def values(self, op):
        return self.iterable(op['v'], (W,))

    def item(self, op):
        self.count += 1
        o = self.kids[op['x']]
        return weakref.ref(o) if self.count % 4 == 0 else o

    def do_init(self, op):
        self.list = W(self.values(op))
        return 'ok'

    def do_die(self, op):
        self.kill(op['x'])
        return 'ok'

    def do_born(self, op):
        self.birth(op['x'])
        return 'ok'

    def do_iterdie(self, op):
        seen = []
        it = iter(self.list)
        done = False
        for k in range(op['p']):
            try:
                seen.append(name(next(it)))
            except StopIteration:
                done = True
                break
        self.kill(op['x'])
        if not done:
            for x in it:
                seen.append(name(x))
        x = None
        return ','.join(seen)

    def do_append(self, op):
        self.list.append(self.item(op))
        return 'ok'

    def do_insert(self, op):
        self.list.insert(op['i'], self.item(op))
        return 'ok'

    def do_extend(self, op):
        self.list.extend(self.values(op))
        return 'ok'

    def do_iadd(self, op):
        l = self.list
        l += self.values(op)
        return 'ok' if l is self.list else 'another list'

    def do_double(self, op):
        self.list.extend(self.list)
        return 'ok'

    def do_clear(self, op):
        self.list.clear()
        return 'ok'

    def do_reverse(self, op):
        self.list.reverse()
        return 'ok'

    def do_sort(self, op):
        self.list.sort()
        return 'ok'

    def do_sortdown(self, op):
        self.list.sort(lambda a, b: b.order - a.order)
        return 'ok'

    def do_pop(self, op):
        return name(self.list.pop() if op['i'] == NONE else self.list.pop(op['i']))

    def do_remove(self, op):
        self.list.remove(self.kids[op['x']])
        return 'ok'

    def do_del(self, op):
        del self.list[op['i']]
        return 'ok'

    def do_put(self, op):
        self.list[op['i']] = self.item(op)
        return 'ok'

    def do_get(self, op):
        return name(self.list[op['i']])

    def sl(self, op):
        if op['s'] == NONE:
            return slice(opt(op['i']), opt(op['j']))
        return slice(opt(op['i']), opt(op['j']), op['s'])

    def do_slice(self, op):
        return ','.join([name(x) for x in self.list[self.sl(op)]])

    def do_dslice(self, op):
        del self.list[self.sl(op)]
        return 'ok'

    def do_pslice(self, op):
        self.list[self.sl(op)] = self.values(op)
        return 'ok'

    def do_index(self, op):
        return str(self.list.index(self.kids[op['x']]))

    def do_count(self, op):
        return str(self.list.count(self.kids[op['x']]))

    def do_in(self, op):
        return str(bool(self.kids[op['x']] in self.list))

    def do_len(self, op):
        return str(len(self.list))

    def do_iter(self, op):
        return ','.join([name(x) for x in self.list])

    def do_getall(self, op):
        return ','.join([name(x) for x in self.list.get()])

    def do_reversed(self, op):
        return ','.join([name(x) for x in reversed(self.list)])

    def do_cmp(self, op):
        import operator
        other = [self.kids[x] for x in op['v']]
        self.count += 1
        if self.count % 2:
            other = W(other)
        return str(bool(getattr(operator, op['o'])(self.list, other)))

    def both(self, new):
        if not isinstance(new, W):
            return 'not a weak list'
        return ','.join([name(x) for x in new]) + ' and ' + ','.join(self.contents())

    def do_add(self, op):
        return self.both(self.list + [self.kids[x] for x in op['v']])

    def do_copy(self, op):
        self.count += 1
        new = self.list.copy() if self.count % 2 else W(self.list)
        new.append(self.kids[op['x']])
        return self.both(new)

    def gen(self, rng):
        live = sorted(self.kids)
        dead = [n for n in self.names if n not in self.kids]
        n = 6
        i, j = rng.randint(-n, n), rng.randint(-n, n)
        k = rng.choice(['append', 'insert', 'extend', 'iadd', 'init', 'clear', 'reverse', 'sort', 'sortdown', 'pop',
                        'remove', 'index', 'count', 'in', 'del', 'get', 'put', 'slice', 'dslice', 'pslice', 'pslice',
                        'len', 'iter', 'getall', 'reversed', 'cmp', 'add', 'copy', 'double'] + ['die'] * 4 + ['born'] * 4 + ['iterdie'] * 2)
        if dead and (k == 'born' or not live):
            return dict(k='born', x=rng.choice(dead))
        if k == 'born':
            k = 'append'
        x = rng.choice(live)
        if k in ('clear', 'reverse', 'sort', 'sortdown', 'len', 'iter', 'getall', 'reversed'):
            return dict(k=k)
        if k == 'double':
            return dict(k=k if len(self.list) < 8 else 'len')
        v = [rng.choice(live) for q in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if len(self.list) > 14 and k in ('append', 'insert', 'extend', 'iadd', 'pslice'):
            k = 'init'
        if k in ('append', 'remove', 'index', 'count', 'in', 'copy', 'die'):
            return dict(k=k, x=x)
        if k == 'iterdie':
            return dict(k=k, x=x, p=rng.randint(0, 4))
        if k in ('insert', 'put'):
            return dict(k=k, x=x, i=i)
        if k in ('extend', 'iadd', 'add', 'init'):
            return dict(k=k, v=v)
        if k == 'cmp':
            if rng.random() < .5:
                v = [y for y in self.contents() if y in self.kids]
            return dict(k=k, v=v, o=rng.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge']))
        s = rng.choice([NONE, NONE, 1, 2, -1, -2, 3, 0])
        bound = lambda b: rng.choice([b, b, b, NONE])
        if k in ('pop',):
            return dict(k=k, i=bound(i))
        if k in ('del', 'get'):
            return dict(k=k, i=i)
        r = dict(k=k, i=bound(i), j=bound(j), s=s)
        if k == 'pslice':
            if rng.random() < .4 and s not in (0, NONE):
                m = len(range(len(self.list))[opt(r['i']):opt(r['j']):s])
                v = [rng.choice(live) for q in range(m)]
            r['v'] = v
        return r
