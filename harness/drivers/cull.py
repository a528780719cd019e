"""Frustum culling: the real side of spec/Cull.tla"""
import numpy


class Driver(object):
    def __init__(self, config):
        from vrml_accelerate import frustcullaccel
        self.cull = frustcullaccel.planeCull

    def cleanup(self):
        pass

    def reset(self, ident, params, rng=None):
        self.count = ident

    def lay(self, a):
        """The array in one of several memory layouts"""
        self.count += 1
        n = self.count % 4
        if n == 1:
            return numpy.asfortranarray(a)
        if n == 2:
            big = numpy.full((a.shape[0] * 2, a.shape[1] + 1), 7, 'f')
            big[::2, :-1] = a
            return big[::2, :-1]
        if n == 3 and a.shape[0]:
            return a[::-1].copy()[::-1]
        return a

    def do(self, op):
        planes = numpy.array(op['planes'], 'f').reshape(-1, 4)
        points = numpy.array(op['points'], 'f').reshape(-1, 3)
        if op['layout'] == 4:
            w = numpy.array([[(1, 0, -5, 1000)[(self.count + k) % 4]] for k in range(len(points))], 'f').reshape(-1, 1)
            points = numpy.concatenate([points, w], axis=1)
        planes, points = self.lay(planes), self.lay(points)
        shape = op['shape']
        if shape == 'planes of 3':
            planes = planes[:, :3].copy()
        elif shape == 'planes of 5':
            planes = numpy.zeros((2, 5), 'f')
        elif shape == 'points of 2':
            points = points[:, :2].copy()
        elif shape == 'points of 5':
            points = numpy.zeros((2, 5), 'f')
        elif shape == 'flat planes':
            planes = planes[0]
        elif shape == 'flat points':
            points = points[0]
        elif shape == 'doubles':
            planes = planes.astype('d')
        elif shape == 'list':
            planes = planes.tolist()
        before = str(planes), str(points)
        args = (planes, points) if not op['margin'] and self.count % 2 else (planes, points, op['margin'])
        try:
            culled, plane = self.cull(*args)
        except (TypeError, ValueError):
            ret = ['error']
        else:
            if culled:
                plane = numpy.asarray(plane)
                ret = ['culled by'] + [str(int(x)) if x == int(x) else str(x) for x in plane.ravel()]
            else:
                ret = ['visible'] if plane is None else ['visible, but by a plane']
            if type(culled) is not bool:
                ret.append('answered %r' % (culled,))
        return {'ret': ret, 'inputs': 'unchanged' if (str(planes), str(points)) == before else 'changed'}

    def gen(self, rng):
        def c():
            return rng.choice([0, 0, 1, -1, 2, -3, rng.randint(-9, 9), rng.randint(-900, 900)])
        near = rng.random() < .5
        planes = [[c(), c(), c(), c()] for k in range(rng.choice([0, 1, 2, 3, 6, 6, 6, 7, 13]))]
        points = [[c(), c(), c()] for k in range(rng.choice([0, 1, 2, 4, 8, 8, 9, 12, 24, 70]))]
        if near and planes and points:
            # make one plane cull, or just not
            p = rng.choice(planes)
            dist = max(p[0] * q[0] + p[1] * q[1] + p[2] * q[2] for q in points)
            p[3] = -dist + rng.choice([-1, 0, 0, 1])
        return dict(k='cull', planes=planes, points=points, margin=rng.choice([0, 0, 0, 1, -1, 5]),
                    layout=rng.choice([3, 4]), shape='ok')
