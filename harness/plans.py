"""What the check of each property runs."""
from core import everything, CONFIGS


def cfg(*lines):
    return '\n'.join(lines) + '\nCHECK_DEADLOCK FALSE\n'


def trace_cfg(*lines, **ops):
    """Configuration of a trace specification, see spec/TraceCheck.tla"""
    return cfg('SPECIFICATION TCSpec', 'CONSTANTS',
               ' SpecInit <- %s' % ops.get('init', 'Step0'), ' SpecStep <- %s' % ops.get('step', 'Step'),
               ' SpecEnabled <- %s' % ops.get('enabled', 'Enabled'), ' SpecInv <- %s' % ops.get('inv', 'TypeOK'),
               *lines)


# ---------------------------------------------------------------- fields
def _fields(run, relevant):
    consts = ['CONSTANTS', ' NodeSeq <- NodesDef', ' FieldSeq <- FieldsDef', ' Mutable = {"f2"}',
              ' SimDepth = 40']
    gen = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT TypeInv']
    props = ['PROPERTIES Frame Rejects ReadBack Once Silent Reverts']
    run.model_check('FieldsMC', cfg(*(gen + props + consts + [' Mode = "mc"', ' Hows = {"attr", "fset", "quiet"}'])))
    b = run.generate('FieldsMC', cfg(*(gen + consts + [' Mode = "gen"', ' Hows = {"attr", "fset", "quiet"}'])),
                     keep=run.pick(60000, None))
    run.replay('every transition', 'fields', b, relevant)
    run.validate('random executions', 'FieldsTrace', 'fields',
                 run.jobs(run.pick(250, 1500), 60, params={'-': '-'}, nodes=3, fields=4),
                 trace_cfg(' NodeSeq <- NodesDef', ' FieldSeq <- FieldsDef', ' Mutable <- MutableDef'), relevant)


def _deletes(op):
    return op['k'] == 'del' or op['k'] == 'answered' and op['v'] == '-'


def C01(run):
    _fields(run, lambda op, c: c in ('ret', 'snap', 'crash') and not _deletes(op))


def C02(run):
    _fields(run, lambda op, c: c in ('notes', 'crash') and not _deletes(op))


def C03(run):
    _fields(run, lambda op, c: _deletes(op) or op['k'] == 'has' or c == 'crash')


# ---------------------------------------------------------------- lists
def C06(run):
    consts = ['CONSTANTS', ' SimDepth = 40']
    small = [' Kids = {"c1", "c2"}', ' MaxLen = 3', ' MaxVals = 2', ' Idx <- IdxDef', ' Bound <- BoundDef',
             ' Strides <- StridesDef']
    large = [' Kids = {"c1", "c2", "c3"}', ' MaxLen = 4', ' MaxVals = 3', ' Idx <- IdxDef', ' Bound <- BoundDef',
             ' Strides <- StridesDef']
    head = ['SPECIFICATION Spec', 'VIEW View']
    run.model_check('OListMC', cfg(*(head + ['PROPERTIES Balance Rejects Quiet Truthful'] + consts + large
                                     + [' Mode = "mc"'])))
    b = run.generate('OListMC', cfg(*(head + consts + small + [' Mode = "gen"'])), keep=run.pick(25000, None))
    run.replay('every transition', 'olist', b, everything, configs=('pure',))
    run.validate('random executions', 'OListTrace', 'olist',
                 run.jobs(run.pick(300, 3000), 60, params={'-': '-'}, kids=4), trace_cfg(), everything,
                 configs=('pure',))


def C07(run):
    head = ['SPECIFICATION Spec', 'VIEW View']
    for nodes, fields in (('NodesTwo', 'FieldsOne'), ('NodesOne', 'FieldsTwo')):
        consts = ['CONSTANTS', ' SimDepth = 40', ' NodeSeq <- ' + nodes, ' FieldSeq <- ' + fields, ' MaxLen = 2']
        small, large = [' Kids = {"c1"}'], [' Kids = {"c1", "c2"}']
        run.model_check('NodeListsMC', cfg(*(head + ['PROPERTIES Tells Frame'] + consts + run.pick(small, large)
                                             + [' Mode = "mc"'])), workers=6,
                        optional=['DoCopy'] if nodes == 'NodesOne' else [])
        b = run.generate('NodeListsMC', cfg(*(head + consts + small + [' Mode = "gen"'])),
                         keep=run.pick(7000, 200000))
        run.replay('every transition, %s %s' % (nodes, fields), 'nodelists', b, everything,
                   params={'nodes': 2 if nodes == 'NodesTwo' else 1, 'fields': fields})
    run.validate('random executions', 'NodeListsTrace', 'nodelists',
                 run.jobs(run.pick(200, 2000), 60, params={'-': '-'}, nodes=3, fields='FieldsThree'),
                 trace_cfg(' NodeSeq <- NodesDef', ' FieldSeq <- FieldsDef'), everything)


def _simple(run, base, driver, props, consts, small, large, configs=CONFIGS, jobs=(300, 3000), length=60, keep=25000,
            inv=True, params=None, trace=(), relevant=everything, **named):
    """The usual three parts"""
    head = ['SPECIFICATION Spec', 'VIEW View'] + (['INVARIANT TypeInv'] if inv else [])
    consts = ['CONSTANTS', ' SimDepth = 40'] + list(consts)
    run.model_check(base + 'MC', cfg(*(head + (['PROPERTIES ' + props] if props else []) + consts
                                       + run.pick(small, large) + [' Mode = "mc"'])), workers=6)
    b = run.generate(base + 'MC', cfg(*(head + consts + small + [' Mode = "gen"'])), keep=run.pick(keep, 250000))
    run.replay('every transition', driver, b, relevant, configs=configs, params=params)
    run.validate('random executions', base + 'Trace', driver,
                 run.jobs(run.pick(*jobs), length, **dict(dict(params={'-': '-'}), **named)),
                 trace_cfg(*trace), relevant, configs=configs)


def C08(run):
    _simple(run, 'WeakList', 'weaklist', 'Deaths Frame Rejects', [],
            [' Kids = {"a1", "a2", "b1"}', ' MaxLen = 3', ' MaxVals = 1'],
            [' Kids = {"a1", "a2", "b1"}', ' MaxLen = 3', ' MaxVals = 2'], configs=('pure',))


def C09(run):
    _simple(run, 'WeakTuple', 'weaktuple', 'Fixed Loud Sound Holds', [],
            [' Kids = {"t1", "t2"}', ' MaxLen = 3', ' MaxVals = 3'],
            [' Kids = {"t1", "t2", "t3"}', ' MaxLen = 4', ' MaxVals = 3'], configs=('pure',), inv=False, keep=50000)


def C10(run):
    _simple(run, 'Cache', 'cache', 'Reasons Clears',
            [' CacheSeq <- OneCache', ' NodeSeq <- NodesDef', ' KeySeq <- KeysDef', ' FieldSeq <- OneField'],
            [' MaxEntries = 2', ' MaxDeps = 1'], [' MaxEntries = 2', ' MaxDeps = 3'], caches=2, nodes=3, keep=10000, jobs=(150, 2000),
            trace=(' CacheSeq <- CachesDef', ' NodeSeq <- NodesDef', ' KeySeq <- KeysDef', ' FieldSeq <- FieldsDef'))


# ---------------------------------------------------------------- matrices
def C12(run):
    _simple(run, 'TransformFns', 'matrix', None, [],
            [' Ts = {"zero", "p"}', ' Cs = {"zero", "c"}', ' Rs <- AllRots',
             ' Ss = {"one", "sx", "mixed"}', ' Os = {"none", "qx", "d3"}', ' Ps = {"none", "pb"}'],
            [' Ts = {"zero", "p", "q"}', ' Cs = {"zero", "c"}', ' Rs <- AllRots',
             ' Ss = {"one", "two", "sx", "mirror", "mixed"}', ' Os <- AllRots', ' Ps = {"none", "pa", "pb"}'],
            jobs=(200, 1500))


def C11(run):
    _simple(run, 'PathMatrix', 'pathmatrix', 'Reads', [' TransSeq <- TransDef', ' Paths <- PathsDef'],
            [' MaxSet = 1', ' MaxDirty = 1', ' PathSet = {"p1", "p2"}', ' Flags <- FewFlags', ' Ways = {"attr", "route"}',
             ' Weak01 = {1}'],
            [' MaxSet = 2', ' MaxDirty = 1', ' PathSet = {"p1", "p2", "p3"}', ' Flags <- AllFlags',
             ' Ways = {"attr", "fset", "route"}', ' Weak01 = {0, 1}'],
            jobs=(120, 1500), keep=50000, trace=(' TransSeq <- TransDef', ' Paths <- PathsDef'))


# ---------------------------------------------------------------- routes
def _routes(run, relevant, jobs, sets):
    head = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT TypeInv']
    props = ['PROPERTIES Frame Delivered Once Rejects']
    def consts(ports, vals, hows, kinds, n, mode, meddle=''):
        return ['CONSTANTS', ' MeddleVals = {%s}' % meddle, ' PortSeq <- %sPorts' % ports, ' Kind <- %sKind' % ports, ' SimDepth = 40',
                ' Vals = {%s}' % vals, ' Hows = {%s}' % hows, ' RouteKinds = {%s}' % kinds, ' MaxRoutes = %d' % n,
                ' Mode = "%s"' % mode]
    both = '"R", "IS"'
    run.model_check('RoutesMC', cfg(*(head + props + (
        run.pick(consts('Small', '"i1", "f1.5", "sx"', '"attr", "quiet"', both, 2, 'mc'),
                 consts('Large', '"i1", "f1.5", "sx"', '"attr"', both, 3, 'mc'))))), workers=6, optional=['Meddle'])
    for ports, vals, kinds, meddle in sets:
        if meddle:
            run.model_check('RoutesMC', cfg(*(head + props + consts(ports, vals, '"attr"', kinds, 2, 'mc', meddle))), workers=6,
                            optional=['Drop', 'Retarget', 'Read'])
        b = run.generate('RoutesMC', cfg(*(head + consts(ports, vals, '"attr"', kinds, 2, 'gen', meddle))),
                         keep=run.pick(40000, 200000))
        run.replay('every transition, %s ports%s' % (ports, ', meddling receivers' if meddle else ''), 'routes', b, relevant,
                   params={'ports': ports})
    run.validate('random executions', 'RoutesTrace', 'routes',
                 run.jobs(run.pick(*jobs), 80, params={'-': '-'}, ports='Trace'),
                 trace_cfg(' PortSeq <- PortsDef', ' Kind <- KindDef'), relevant)


def C13(run):
    _routes(run, everything, (250, 3000), (('Small', '"f1.5", "sx"', '"R", "IS"', ''), ('Other', '"i1", "sx"', '"R", "IS"', ''),
                                       ('Small', '"f1.5"', '"R"', '"i2"')))
    run.validate('long chains of routes', 'RoutesTrace', 'routes',
                 run.jobs(run.pick(60, 800), 70, params={'-': '-'}, ports='Long'),
                 trace_cfg(' PortSeq <- LongPorts', ' Kind <- LongKind'), everything)


def C26(run):
    _routes(run, everything, (250, 3000), (('Event', '"i1", "sx"', '"R", "IS"', ''),))


def C24(run):
    _simple(run, 'Cull', 'cull', 'Exactly', [' Margins <- SomeMargins'],
            [' PlaneSet <- SomePlanes', ' PointSet <- SomePoints', ' MaxPlanes = 2', ' MaxPoints = 3'],
            [' PlaneSet <- MorePlanes', ' PointSet <- MorePoints', ' MaxPlanes = 3', ' MaxPoints = 3'],
            configs=('accel',), inv=False)


def C23(run):
    head = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT TypeInv']
    def consts(nodes, kinds, paths, length, mode):
        return ['CONSTANTS', ' NodeSeq <- ' + nodes, ' Bounds <- FewBounds', ' Kinds = {%s}' % kinds,
                ' MaxPaths = %d' % paths, ' MaxLen = %d' % length, ' SimDepth = 40', ' Mode = "%s"' % mode]
    both = '"strong", "weak"'
    run.model_check('NodePathMC', cfg(*(head + ['PROPERTIES Breaks Fixed Extends'] + run.pick(
        consts('OneNode', both, 3, 2, 'mc'), consts('NodesDef', both, 3, 3, 'mc')))), workers=6)
    for nodes, kinds, paths, length in (('NodesDef', both, 2, 3), ('OneNode', '"weak"', 3, 1), ('OneNode', '"strong"', 3, 1)):
        b = run.generate('NodePathMC', cfg(*(head + consts(nodes, kinds, paths, length, 'gen'))),
                         keep=run.pick(40000, 200000))
        run.replay('every transition, %d paths, %s' % (paths, kinds.replace('"', '')), 'nodepath', b, everything,
                   configs=('pure',))
    run.validate('random executions', 'NodePathTrace', 'nodepath',
                 run.jobs(run.pick(300, 3000), 60, params={'-': '-'}), trace_cfg(' NodeSeq <- NodesDef'), everything,
                 configs=('pure',))


def C22(run):
    head = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANTS TypeInv Declared Exact', 'PROPERTY Inherits']
    def consts(classes, keys, names, decls, look, mode):
        return ['CONSTANTS', ' ClassSeq <- %sClasses' % classes, ' MRO <- %sMRO' % classes, ' KeySeq <- ' + keys,
                ' NameSeq <- ' + names, ' MaxDecls = %d' % decls, ' LookIn = {%s}' % look, ' SimDepth = 40', ' Mode = "%s"' % mode]
    run.model_check('ReflectMC', cfg(*(head + run.pick(consts('Dia', 'XY', 'Few', 3, '"Leaf"', 'mc'),
                                                       consts('Dia', 'XY', 'Few', 4, '"Leaf", "Left"', 'mc')))), workers=6)
    for which, classes, keys, names, decls, look in (
            ('two', 'Two', 'XY', 'Few', 3, '"Base", "Leaf"'), ('two', 'Two', 'Prefixed', 'Few', 3, '"Leaf"'),
            ('diamond', 'Dia', 'X', 'Short', 4, '"Leaf"')):
        b = run.generate('ReflectMC', cfg(*(head + consts(classes, keys, names, decls, look, 'gen'))),
                         keep=run.pick(30000, 200000))
        run.replay('every transition, %s %s' % (classes, keys), 'reflect', b, everything, configs=('pure',),
                   params={'which': which})
    run.validate('random executions', 'ReflectTrace', 'reflect',
                 run.jobs(run.pick(150, 1500), 50, params={'-': '-'}, which='trace'),
                 trace_cfg(' ClassSeq <- ClassesDef', ' MRO <- MRODef', ' KeySeq <- KeysDef', ' NameSeq <- NamesDef'),
                 everything, configs=('pure',))


# ---------------------------------------------------------------- scenegraphs
def _scenes(run, relevant, sets):
    head = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT TypeInv']
    def consts(nodes, scenes, names, kids, structure, named, preset, mode):
        return ['CONSTANTS', ' Preset <- %sPreset' % preset, ' NodeSeq <- ' + nodes, ' SceneSeq <- ' + scenes, ' NameSeq <- ' + names, ' MaxKids = %d' % kids,
                ' Structure = %s' % structure, ' Named1 = {%s}' % named, ' SimDepth = 40', ' Mode = "%s"' % mode]
    run.model_check('SceneGraphMC', cfg(*(head + ['PROPERTIES Keeps Adopts Registered Releases'] + run.pick(
        consts('TwoNodes', 'TwoScenes', 'TwoNames', 1, 'TRUE', '"a"', 'No', 'mc'),
        consts('TwoNodes', 'TwoScenes', 'TwoNames', 1, 'TRUE', '"a", "b"', 'One', 'mc')))), workers=6)
    values = dict(OneNode='a', TwoNodes='a,b', ThreeNodes='a,b,c', OneScene='s', TwoScenes='s,t', OneName='N', TwoNames='N,M')
    presets = dict(No='', One='a:b:', Both='a:b:c b::c')
    for args in sets:
        b = run.generate('SceneGraphMC', cfg(*(head + consts(*(args + ('gen',))))), keep=run.pick(25000, 300000))
        run.replay('every transition, %s %s %s, %s preset' % (args[:3] + args[6:]), 'scenegraph', b, relevant,
                   params=dict(preset=presets[args[6]], nodes=values[args[0]], scenes=values[args[1]], names=values[args[2]]))
    run.validate('random executions', 'SceneGraphTrace', 'scenegraph',
                 run.jobs(run.pick(200, 2500), 60, params={'-': '-'}, nodes='t1,t2,t3,t4,t5,r1,r2', scenes='s1,s2,s3', preset='t1:t4: t3::t5,t4 t4:t5:',
                          names='P,Q,A1,B1,A2,B2,A3,A4,A5'),
                 trace_cfg(' NodeSeq <- NodesDef', ' SceneSeq <- ScenesDef', ' NameSeq <- NamesDef', ' Preset <- PresetDef'), relevant)


def C16(run):
    _scenes(run, lambda op, c: c in ('names', 'crash') or (op['k'] in ('reg', 'def')),
            [('TwoNodes', 'OneScene', 'TwoNames', 1, 'FALSE', '"a", "b"', 'No'), ('TwoNodes', 'TwoScenes', 'OneName', 1, 'FALSE', '"a", "b"', 'One')])


def C17(run):
    _scenes(run, lambda op, c: c != 'names' and op['k'] not in ('reg', 'def'),
            [('TwoNodes', 'TwoScenes', 'OneName', 1, 'TRUE', '', 'No'), ('ThreeNodes', 'OneScene', 'OneName', 1, 'TRUE', '', 'No'),
             ('ThreeNodes', 'OneScene', 'OneName', 1, 'TRUE', '', 'Both')])


def C18(run):
    def consts(names, scenes, programs, mode):
        return ['CONSTANTS', ' NameSeq <- ' + names, ' StdNames = {"Group", "Box"}', ' MaxScenes = %d' % scenes,
                ' Programs <- ' + programs, ' SimDepth = 40', ' Mode = "%s"' % mode]
    head = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT TypeInv']
    run.model_check('ProtosMC', cfg(*(head + ['PROPERTIES Scoped Newest Apart'] + consts(
        'NamesDef', run.pick(2, 3), 'FewPrograms', 'mc'))), workers=6)
    b = run.generate('ProtosMC', cfg(*(head + consts('NamesDef', 2, 'FewPrograms', 'gen'))), keep=run.pick(20000, 200000))
    run.replay('every transition', 'protos', b, everything, configs=('pure',), params={'names': 'P,Group'})
    b = run.generate('ProtosMC', cfg(*(['SPECIFICATION ParseSpec', 'VIEW ParseView', 'INVARIANT TypeInv'] + consts(
        run.pick('NamesDef', 'MoreNames'), 1, run.pick('AllPrograms', 'LongPrograms'), 'gen'))), keep=run.pick(12000, 200000))
    run.replay('texts', 'protos', b, everything, configs=('pure',), params={'names': run.pick('P,Group', 'P,Q,Group')})
    run.validate('random executions', 'ProtosTrace', 'protos',
                 run.jobs(run.pick(200, 2500), 40, params={'-': '-'}, names='P,Q,R,Group,Box'),
                 trace_cfg(' NameSeq <- NamesDef', ' StdNames = {"Group", "Box"}'), everything, configs=('pure',))


# ---------------------------------------------------------------- coercion
SCALAR_TYPES = ['SFBool', 'SFInt32', 'SFUInt32', 'SFFloat', 'SFTime', 'SFString', 'MFString', 'MFInt32', 'MFUInt32',
                'SFImage', 'MFFloat', 'MFTime', 'MFFloat32']
VECTOR_TYPES = ['SFVec2f', 'SFVec3f', 'SFVec4f', 'SFRotation', 'SFColor', 'SFVec2d', 'SFVec3d', 'SFVec4d', 'MFVec2f',
                'MFVec3f', 'MFVec4f', 'MFColor', 'MFRotation', 'MFVec2d', 'MFVec3d', 'MFVec4d', 'MFMatrix3f',
                'MFMatrix4f', 'MFMatrix3d', 'MFMatrix4d', 'SFArray', 'SFArray32']


def _coerce(run, which):
    def consts(mode, large):
        return ['CONSTANTS', ' TypeSeq <- ' + which, ' Large = ' + large, ' SimDepth = 40', ' Mode = "%s"' % mode]
    head = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT TypeInv']
    large = 'TRUE'
    run.model_check('CoerceMC', cfg(*(head + ['PROPERTIES Canonical InShape Alike'] + consts('mc', large))), workers=6,
                    coverage=False)  # TLC runs out of memory counting recursive operators
    b = run.generate('CoerceMC', cfg(*(head + consts('gen', large))), keep=run.pick(40000, None))
    run.replay('every value and type', 'coerce', b, everything)
    run.validate('random values', 'CoerceTrace', 'coerce',
                 run.jobs(run.pick(400, 6000), 40, params={'-': '-'}, types=SCALAR_TYPES if which == 'Scalar' else VECTOR_TYPES),
                 trace_cfg(), everything)


def C04(run):
    _coerce(run, 'Scalar')


def C05(run):
    _coerce(run, 'Vector')


# ---------------------------------------------------------------- instances and copies
def C14(run):
    head = ['SPECIFICATION Spec', 'VIEW View', 'CONSTRAINT Bound', 'INVARIANT TypeInv']
    def consts(insts, programs, ops, words, mode):
        return ['CONSTANTS', ' InstSeq <- ' + insts, ' Programs <- ' + programs, ' MaxOps = %d' % ops,
                ' Ints = {%s}' % words, ' Words = {"x"}', ' SimDepth = 40', ' Mode = "%s"' % mode]
    run.model_check('InstancesMC', cfg(*(head + ['INVARIANT Linked', 'PROPERTIES Separate Given SameAs']
                                         + consts('InstSeqDef', 'AllPrograms', run.pick(3, 4), '"5"', 'mc'))), workers=6, coverage=False)
    for programs, ops in (('Flatly', run.pick(2, 3)), ('NodesOnly', 3), ('NestedOnly', run.pick(2, 3))):
        b = run.generate('InstancesMC', cfg(*(head + consts('InstSeqDef', programs, ops, '"5"', 'gen'))),
                         keep=run.pick(8000, 60000))
        run.replay('every transition, ' + programs, 'instances', b, everything, configs=('pure',))
    run.validate('random executions', 'InstancesTrace', 'instances',
                 run.jobs(run.pick(150, 2000), 40, params={'-': '-'}), trace_cfg(' InstSeq <- InstSeqDef'), everything,
                 configs=('pure',))


def C15(run):
    head = ['SPECIFICATION Spec', 'VIEW View', 'CONSTRAINT Bound', 'INVARIANT TypeInv']
    def consts(graphs, ops, mode):
        return ['CONSTANTS', ' DefSeq <- DefsDef', ' Graphs <- ' + graphs, ' MaxOps = %d' % ops, ' SimDepth = 40', ' Mode = "%s"' % mode]
    run.model_check('CopiesMC', cfg(*(head + ['PROPERTIES Unchanged Alike Apart'] + consts(*run.pick(('FewBoth', 2, 'mc'), ('FewBoth', 3, 'mc'))))),
                    workers=6, coverage=False)
    for graphs, ops in (('Both', 1), ('FewBoth', 2)) + run.pick((), (('TinyScenes', 3),)):
        b = run.generate('CopiesMC', cfg(*(head + consts(graphs, ops, 'gen'))), keep=run.pick(8000, 60000))
        run.replay('every transition, %s' % graphs, 'copies', b, everything)
    run.validate('random executions', 'CopiesTrace', 'copies',
                 run.jobs(run.pick(300, 4000), 40, params={'-': '-'}, names='m,n,p,q,r'), trace_cfg(' DefSeq <- DefsDef'), everything)


READER = ('NodePieces', 'ProtoPieces', 'ScriptPieces', 'ValuePieces')


def C20(run):
    def text(pieces, count, mode, extra=(), opened='FALSE'):
        return cfg('SPECIFICATION Spec', 'VIEW View', 'CONSTRAINT Bound', 'INVARIANT TypeInv', *(extra + (
            'CONSTANTS', ' Pieces <- ' + pieces, ' MaxPieces = %d' % count, ' Open = ' + opened, ' SimDepth = 0', ' Mode = "%s"' % mode)))
    theorems = ('INVARIANT Scoped', 'INVARIANT LayoutFree', 'PROPERTY Grows')
    for pieces, quick, deep in (('NodePieces', 5, 6), ('ProtoPieces', 5, 6), ('ScriptPieces', 4, 5), ('ValuePieces', 4, 5), ('TokenPieces', 6, 8)):
        run.model_check('ReaderMC', text(pieces, run.pick(quick, deep), 'mc', theorems), workers=6, coverage=False)
    for pieces, quick, deep in (('NodePieces', 5, 6), ('ProtoPieces', 5, 6), ('ScriptPieces', 5, 6), ('ValuePieces', 4, 5)):
        b = run.generate('ReaderMC', text(pieces, run.pick(quick, deep), 'gen'), keep=run.pick(20000, 150000))
        run.replay('every sequence of %s' % pieces, 'reader', b, everything)
    b = run.generate('ReaderMC', text('TokenPieces', run.pick(6, 8), 'gen', opened='TRUE'), keep=run.pick(20000, 150000))
    run.replay('every sequence of tokens', 'reader', b, everything)
    run.validate('random texts', 'ReaderTrace', 'reader', run.jobs(run.pick(250, 3000), 10), trace_cfg(), everything)


def C27(run):
    b = cfg('SPECIFICATION Spec', 'INVARIANT Sound', 'INVARIANT Standard', 'CONSTANTS', ' Mode = "gen"')
    run.model_check('NodesMC', b.replace('"gen"', '"mc"'), coverage=False)
    run.replay('the standard nodes', 'reader', run.generate('NodesMC', b), everything)


# ---------------------------------------------------------------- writing
def _write(run, relevant, name, behaviours):
    run.record(name, 'WriterTrace', 'writer', behaviours, trace_cfg(), relevant)


def _written_scenes(run, relevant, quick, deep, keep):
    for pieces in READER:
        def text(count, mode, *extra):
            return cfg('SPECIFICATION Spec', 'VIEW View', 'CONSTRAINT Bound', *(extra + (
                'CONSTANTS', ' Pieces <- ' + pieces, ' MaxPieces = %d' % count, ' Open = FALSE', ' SimDepth = 0', ' Mode = "%s"' % mode)))
        if run.prop == 'C19':
            run.model_check('WriterMC', text(run.pick(quick, deep), 'mc', 'INVARIANT RoundTrip'), workers=6, coverage=False)
        b = run.generate('WriterMC', text(run.pick(quick, deep), 'gen', 'INVARIANT TypeInv') + 'CONSTANT Emitted <- Jobs\n', keep=keep)
        _write(run, relevant, 'every scene of %s' % pieces, b)


def _edits(run, relevant, ops, keep):
    def consts(mode):
        return ['SPECIFICATION Spec', 'VIEW View', 'CONSTRAINT Bound', 'CONSTANTS', ' MaxOps = %d' % (ops + 1), ' Programs <- SomePrograms',
                ' Mode = "%s"' % mode, 'INVARIANT TypeInv']
    if run.prop == 'C25':
        run.model_check('EditsMC', cfg(*(consts('mc') + ['INVARIANT RoundTrip', 'PROPERTIES Writing Alone'])), workers=6, coverage=False)
    b = run.generate('EditsMC', cfg(*consts('gen')), keep=keep)
    _write(run, relevant, 'every history of edits', b)


def C19(run):
    relevant = lambda op, c: c in ('ret', 'means', 'again', 'twice', 'names', 'crash')
    _written_scenes(run, relevant, 5, 6, run.pick(1200, 20000))
    _edits(run, relevant, 2, run.pick(800, 20000))
    run.validate('random scenes', 'WriterTrace', 'writer', run.jobs(run.pick(700, 8000), 12), trace_cfg(), relevant)
    run.validate('long lists of values', 'WriterTrace', 'writer', run.jobs(run.pick(120, 1500), 3, lengths=True), trace_cfg(), relevant)
    run.validate('values near the defaults', 'WriterTrace', 'writer', run.jobs(run.pick(400, 4000), 3, nearly=True), trace_cfg(), relevant)


def C21(run):
    def consts(alphabet, length, mode):
        return cfg('SPECIFICATION Spec', 'INVARIANT Alone', 'INVARIANT Unlike', 'INVARIANT Listed', 'INVARIANT Jobs',
                   'CONSTANTS', ' Alphabet <- ' + alphabet, ' MaxLen = %d' % length, ' Mode = "%s"' % mode)
    run.model_check('StringsMC', consts('Five', run.pick(6, 8), 'mc'), workers=6, coverage=False)
    for alphabet, quick, deep in (('Ten', 3, 4), ('Five', 4, 6)):
        b = run.generate('StringsMC', consts(alphabet, run.pick(quick, deep), 'gen'))
        _write(run, everything, 'every string of %s' % alphabet, b)
    run.validate('random strings', 'WriterTrace', 'writer', run.jobs(run.pick(500, 6000), 8, strings=True), trace_cfg(), everything)


def C25(run):
    relevant = lambda op, c: c in ('ret', 'scene', 'sent', 'kept', 'names', 'steady', 'crash')
    _edits(run, relevant, 3, run.pick(2500, 40000))
    _written_scenes(run, relevant, 4, 5, run.pick(400, 8000))
    run.validate('random histories', 'WriterTrace', 'writer', run.jobs(run.pick(600, 8000), 16), trace_cfg(), relevant)
    run.validate('zeros with signs', 'WriterTrace', 'writer', run.jobs(run.pick(200, 3000), 6, zeros=True), trace_cfg(), relevant)


def C28(run):
    _simple(run, 'Null', 'null', 'Asks Apart Rejects Keeps', [],
            [' MaxLen = 2', ' Held = {"NULL", "n1"}', ' Wheres = {"kids", "list"}', ' Fields = {"sf", "must"}'],
            [' MaxLen = 2', ' Held = {"NULL", "n1", "other"}', ' Wheres = {"kids"}', ' Fields = {"sf", "must"}'],
            jobs=(200, 3000), keep=30000)
