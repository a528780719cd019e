"""The matrix functions: the real side of spec/TransformFns.tla"""
import math
import numpy
from vrml.vrml97 import transformmatrix as tm, basenodes

U = 64
A = numpy.array
pi = math.pi
POINTS = dict(zero=(0, 0, 0), p=(1, 2, 3), q=(-2, 0, 1), x=(3, 0, 0), cz=(0, 0, 1), c=(1, -1, 2), y=(0, 2, 0))
SCALES = dict(one=(1, 1, 1), two=(2, 2, 2), sx=(2, 1, 1), mirror=(1, 1, -1), half=(1, .5, 1), mixed=(-1, 2, .5),
              flat=(0, 1, 1), sz=(1, 1, 2))
ROTS = dict(none=(0, 1, 0, 0), qz=(0, 0, 1, pi / 2), qx=(1, 0, 0, pi / 2), mx=(1, 0, 0, -pi / 2), z2=(0, 0, 2, pi / 2),
            nz=(0, 0, -1, pi / 2), d3=(1, 1, 1, 2 * pi / 3), e3=(1, 1, 1, 4 * pi / 3), f3=(1, -1, 1, 2 * pi / 3),
            h2=(1, 1, 0, pi), h3=(0, 1, -1, pi), full=(1, 0, 0, 2 * pi), zero=(0, 0, 0, pi / 2))


def show(m, size=16):
    """The numbers in fixed point"""
    if m is None:
        m = numpy.identity(4)
    m = numpy.asarray(m, 'd')
    if m.shape != ((4, 4) if size == 16 else (4,)):
        return ['shape %s' % (m.shape,)]
    out = []
    for v in m.ravel():
        v = v * U
        if v != v or abs(v) > 1e7 or abs(v - round(v)) > .02:
            out.append('%.4f' % (v,))
        else:
            out.append(str(int(round(v))))
    return out


def rotation(label, n):
    # the axis need not be normalised
    k = (1., 1., 1.003, .996, 7.)[n % 5]
    x, y, z, a = ROTS[label]
    x, y, z = x * k, y * k, z * k
    # other spellings of the same angle
    if n % 3 == 1:
        a += 2 * pi
    elif n % 3 == 2:
        a -= 2 * pi
    if label == 'full':
        a = 2 * pi
    return (x, y, z, a)


def spell(v, n):
    v = tuple([float(x) for x in v]) if n % 2 else tuple(v)
    return (v, list(v), A(v, 'd'), A(v, 'f'))[n % 4]


def spell4(v, n):
    return (tuple(v), list(v), A(v, 'd'), A(v, 'f'))[n % 4]


class Driver(object):
    def __init__(self, config):
        pass

    def cleanup(self):
        pass

    def reset(self, ident, params, rng=None):
        self.count = ident
        pa = tm.dot(A([[0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]),
                    A([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [1, 0, 2, 1]]))
        # x -> y -> z -> x about (1,1,1)
        pb = tm.dot(numpy.diag([2, 1, 1, 1]), tm.dot(
            A([[0, 1, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0], [0, 0, 0, 1]]),
            A([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, -1, 3, 1]])))
        self.parents = dict(none=None, pa=pa, pb=pb)

    def next(self):
        self.count += 1
        return self.count

    def named(self, op):
        n = self.next()
        args = dict(translation=spell(POINTS[op['t']], n), center=spell(POINTS[op['c']], n + 1),
                    rotation=spell(rotation(op['r'], n), n + 2), scale=spell(SCALES[op['s']], n + 3),
                    scaleOrientation=spell(rotation(op['o'], n + 1), n))
        if n % 3 == 0:
            # nothing said about what is nothing special
            for k, v in (('translation', 'zero'), ('center', 'zero'), ('rotation', 'none'), ('scale', 'one'),
                         ('scaleOrientation', 'none')):
                if op[{'scaleOrientation': 'o'}.get(k, k[0])] == v:
                    if n % 2:
                        args[k] = None
                    else:
                        del args[k]
        return args

    def do(self, op):
        fn = op['fn']
        if fn[0] == 'g':
            return {'m': ['as it must be']}
        if fn in ('transformMatrix', 'itransformMatrix'):
            return {'m': show(getattr(tm, fn)(parentMatrix=self.parents[op['p']], **self.named(op)))}
        if fn.startswith('transformMatrices'):
            return {'m': show(tm.transformMatrices(parentMatrix=self.parents[op['p']], **self.named(op))[int(fn[-1])])}
        if fn.startswith('localMatrices'):
            n = self.next()
            if n % 2:
                return {'m': show(tm.localMatrices(**self.named(op))[int(fn[-1])])}
            named = dict((k, v) for k, v in self.named(op).items() if v is not None)
            return {'m': show(basenodes.Transform(**named).localMatrices().data[int(fn[-1])])}
        n = self.next()
        if fn[:-1] == 'trans':
            return {'m': show(tm.transMatrix(spell(POINTS[op['t']], n))[int(fn[-1])])}
        if fn[:-1] == 'rot':
            return {'m': show(tm.rotMatrix(spell(rotation(op['r'], n), n))[int(fn[-1])])}
        if fn[:-1] == 'scale':
            return {'m': show(tm.scaleMatrix(spell(SCALES[op['s']], n))[int(fn[-1])])}
        if fn == 'center':
            return {'m': show(tm.center(spell(POINTS[op['t']], n), spell(POINTS[op['c']], n),
                                        self.parents[op['p']]), 4)}
        if fn.startswith('perspective'):
            return {'m': show(tm.perspectiveMatrix(pi / 2, op['a'] / op['b'], op['near'], op['far'],
                                                   inverse=fn.endswith('1')))}
        return {'m': show(tm.orthoMatrix(op['x1'], op['x2'], op['y1'], op['y2'], op['z1'], op['z2']))}

    def measured(self, rng):
        """An operation with what the function gave"""
        which = rng.choice('01')
        fn = rng.choice(['grot', 'gtrans', 'gscale'])
        n = 1
        K = 10000
        if fn == 'grot':
            axis, n = rng.choice([((1, 2, 2), 3), ((2, -3, 6), 7), ((0, 3, 4), 5), ((0, 0, 1), 1), ((-1, 0, 0), 1),
                                  ((4, 0, -3), 5), ((2, -1, 2), 3), ((0, -1, 0), 1), ((8, 1, 4), 9)])
            angle = rng.choice([rng.uniform(-7, 7), rng.uniform(-.01, .01), rng.uniform(-20, 20), pi, pi / 4, 3, 1, 2])
            k = rng.choice([1., 1. / n, 3., .01, 1.004 / n, .997 / n, 1.0005 / n, rng.uniform(.95, 1.05) / n])
            v = [x * k for x in axis] + [angle]
            op = dict(x=axis[0], y=axis[1], z=axis[2], n=n, c=int(round(math.cos(angle) * K)),
                      s=int(round(math.sin(angle) * K)))
            m = tm.rotMatrix(spell4(v, self.next()))[int(which)]
        else:
            if fn == 'gtrans':
                v = [rng.choice([rng.randint(-100000, 100000), rng.randint(-20, 20), 0]) for i in range(3)]
            else:
                v = [rng.choice([1, 1, -1]) * rng.choice([rng.randint(5000, 40000), rng.randint(9980, 10020), 10000])
                     for i in range(3)]
            op = dict(x=v[0], y=v[1], z=v[2])
            m = (tm.transMatrix if fn == 'gtrans' else tm.scaleMatrix)(
                spell4([x / float(K) for x in v], self.next()))[int(which)]
        if m is None:
            m = numpy.identity(4)
        m = numpy.asarray(m, 'd')
        if m.shape != (4, 4) or not numpy.isfinite(m).all() or abs(m).max() > 1000:
            m = numpy.zeros((4, 4))
        op['fn'] = fn + which
        op['m'] = [int(round(x * K * n * n)) for x in m.ravel()]
        return op

    def gen(self, rng):
        if rng.random() < .5:
            return self.measured(rng)
        r = rng.choice
        rots = sorted(ROTS)
        fn = r(['transformMatrix', 'transformMatrices0', 'itransformMatrix', 'transformMatrices1',
                'localMatrices0', 'localMatrices1'])
        scales = [s for s in sorted(SCALES) if s != 'flat']
        if fn == 'transformMatrix':
            scales.append('flat')
        return dict(fn=fn, t=r(sorted(POINTS)), c=r(sorted(POINTS)), r=r(rots), s=r(scales), o=r(rots),
                    p='none' if fn.startswith('local') else r(['none', 'pa', 'pb']))
