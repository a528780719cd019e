"""Reflection over prototypes: the real side of spec/Reflect.tla"""
from vrml import field, node, protofunctions
from vrml import fieldtypes  # registers the types

PARENTS = {
    'two': [('Base', ()), ('Leaf', ('Base',))],
    'diamond': [('Base', ()), ('Left', ('Base',)), ('Mix', ('Base',)), ('Leaf', ('Left', 'Mix'))],
    'trace': [('Base', ()), ('Left', ('Base',)), ('Right', ('Base',)), ('Mix', ()),
              ('Leaf', ('Left', 'Right', 'Mix')), ('Proto', ('Leaf',))],
}
KEYS = ['DEF', 'externalURL', 'rootSceneGraph', 'x', 'y', 'z', 'set_x', 'x_changed', 'y_changed', 'w', 'v']
STORES = {'x': ['x', ' x', 'x'], 'y': ['y', ' y', 'x', 'set_x'], 'z': ['z', ' z'], 'set_x': ['set_x'],
          'y_changed': ['y_changed'], 'w': ['w', 'set_y', 's t'], 'v': ['v', 'z']}
BARE = ['x', ' x', 'y', ' y', 'z', ' z', 'w', 'v', 'DEF', ' DEF', 'externalURL', 'rootSceneGraph', ' root', 'nope',
        's t', 'set_', '_changed']
NAMES = (BARE + ['set_' + n for n in BARE] + [n + '_changed' for n in BARE] + ['set_' + n + '_changed' for n in BARE]
         + ['set_set_x', 'y_changed_changed'])
BUILTIN = [('DEF', ' DEF'), ('externalURL', 'externalURL'), ('rootSceneGraph', ' root')]
TYPES = ['SFInt32', 'SFString', 'SFNode', 'MFNode', 'MFString', 'SFVec3f']


class Driver(object):
    def __init__(self, config):
        pass

    def cleanup(self):
        self.classes = {}

    def reset(self, ident, params, rng=None):
        self.count = ident
        self.known = {}
        self.keep = []
        self.current = {}
        for key, store in BUILTIN:
            self.note('Node', key, 'field', store, node.Node.__dict__[key])
        self.classes = {}
        for name, bases in PARENTS[params.get('which', 'trace')]:
            bases = tuple(self.classes[b] for b in bases) or (node.Node,)
            if ident % 2:
                cls = node.prototype(name, (), baseClasses=bases)
            else:
                cls = type(str(name), bases, {'PROTO': str(name)})
            self.classes[name] = cls

    def note(self, cls, key, kind, store, obj):
        self.keep.append(obj)
        self.current[cls, key] = obj
        self.known[id(obj)] = (KEYS.index(key), cls, key, '%s.%s:%s:%s' % (cls, key, kind, store))

    def label(self, obj):
        k = self.known.get(id(obj))
        if k is None:
            return (99, 'unknown %r' % (obj,))
        if self.current.get(k[1:3]) is not obj:
            return (k[0], 'gone ' + k[3])
        return (k[0], k[3])

    def subject(self, c):
        """The class or a node of it"""
        cls = self.classes[c]
        self.count += 1
        if self.count % 3 == 0:
            try:
                return cls()
            except Exception:
                return cls
        return cls

    def listing(self, c, kind):
        return [x[1] for x in sorted(self.label(o) for o in protofunctions.getFields(
            self.subject(c), *([1] if kind == 'event' else [0] if self.count % 2 else [])))]

    def do(self, op):
        ret = getattr(self, 'do_' + op['k'])(op)
        snap = []
        for c in self.classes:
            for kind in ('field', 'event'):
                snap.append('%s %ss %s' % (c, kind, ' | '.join(self.listing(c, kind))))
        return {'ret': ret, 'snap': snap}

    def do_declare(self, op):
        self.count += 1
        if op['kind'] == 'field':
            obj = field.newField(op['store'], TYPES[self.count % len(TYPES)], self.count % 2)
        else:
            obj = field.newEvent(op['store'], TYPES[self.count % len(TYPES)], self.count % 2)
        if op['store'] == op['key'] and self.count % 4:
            protofunctions.addField(self.subject(op['c']), obj)
        else:
            setattr(self.classes[op['c']], str(op['key']), obj)
        self.note(op['c'], op['key'], op['kind'], op['store'], obj)
        return ['ok']

    def do_remove(self, op):
        c, key = op['c'], op['key']
        what = key
        obj = self.current.get((c, key))
        if obj is not None and obj.name == key and self.count % 2:
            what = obj
        try:
            protofunctions.removeField(self.subject(c), what)
        except AttributeError:
            return ['AttributeError']
        self.current.pop((c, key), None)
        return ['ok']

    def do_list(self, op):
        return self.listing(op['c'], op['kind'])

    def do_look(self, op):
        try:
            return [self.label(protofunctions.getField(self.subject(op['c']), op['n']))[1]]
        except AttributeError:
            return ['AttributeError']

    def do_make(self, op):
        try:
            made = self.classes[op['c']](**{op['n']: self.value(op)})
        except AttributeError:
            return ['AttributeError']
        return sorted(made.__dict__)

    def value(self, op):
        """A value the field accepts"""
        try:
            f = protofunctions.getField(self.classes[op['c']], op['n'])
        except AttributeError:
            return 1
        return {'SFInt32': 4, 'SFString': 'a', 'SFNode': node.NULL, 'MFNode': [], 'MFString': ['b'],
                'SFVec3f': (1, 2, 3)}.get(f.typeName() if isinstance(f, field.Field) else '', 4)

    def gen(self, rng):
        k = rng.choice(['declare'] * 4 + ['remove', 'remove', 'list'] + ['look'] * 6 + ['make'] * 2)
        c = rng.choice(sorted(self.classes))
        if k in ('declare', 'remove'):
            key = rng.choice(sorted(STORES))
            if k == 'remove':
                return dict(k=k, c=c, key=key)
            store = rng.choice(STORES[key])
            kind = rng.choice(['field', 'event'])
            # storage names are ambiguous only between a field and an event
            if key == 'y' and store in ('x', 'set_x'):
                kind = 'field'
            if key == 'v' and store == 'z':
                kind = 'event'
            return dict(k=k, c=c, key=key, kind=kind, store=store)
        if k == 'list':
            return dict(k=k, c=c, kind=rng.choice(['field', 'event']))
        names = NAMES if k == 'look' else [n for n in NAMES if 'DEF' not in n and 'oot' not in n and 'URL' not in n]
        return dict(k=k, c=c, n=rng.choice(names if rng.random() < .6 else ['x', ' x', 'set_x', 'y', 'set_y', 'y_changed']))
