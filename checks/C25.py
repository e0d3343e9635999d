"""Actions: what is configured is created, when actions run, and what each of them does to the data."""
from check import *
from api import *

MIN = 60
A_ = 'precice::action::'
CFG = A_ + 'ActionConfiguration::'
PI = 'precice::impl::ParticipantImpl::'


def run(ctx):
    timing(ctx)
    configured(ctx)
    created(ctx)
    constructed(ctx)
    scaling(ctx)
    summation(ctx)
    python(ctx)


def inlined(ctx):
    return lambda A, F, D: D.q.endswith('Data::values') or ctx.policy(A, F, D)


def once(ctx, rule, f, *calls):
    """no further call of these functions besides the one of the specification"""
    for q in calls:
        n = f.call(q)
        ctx.ob(rule, '%s: one call of %s' % (f.name, q), len(list(n)) == 1, '%s:%d' % (f.F.file, f.F.line), 'found %d' % len(list(n)))


def timing(ctx):
    """a participant runs those of its actions which have the asked-for timing, all of them and in order; after the mapping of that direction"""
    ctx.spec('timing', PI + 'performDataActions', '''
        for _accessor._actions: call Action::performAction(elem(_accessor._actions)) | {contains(arg0, elem(_accessor._actions)._timing)}
    ''')
    once(ctx, 'timing', ctx.fn(PI + 'performDataActions'), 'Action::performAction')
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('performDataActions', 'mapInitialWrittenData', 'mapInitialReadData', 'mapWrittenData', 'mapReadData')
    for op, gate, w, r in (('initialize', '', 'mapInitialWrittenData', 'mapInitialReadData'),
                           ('handleDataBeforeAdvance', ' | {arg0}', 'mapWrittenData', None),
                           ('handleDataAfterAdvance', ' | {arg0}', None, 'mapReadData')):
        f = ctx.fn(PI + op, policy=keep)
        text, order = [], []
        for d, m in (('WRITE', w), ('READ', r)):
            if m:
                text += ['m%s) call ParticipantImpl::%s(*)' % (d, m) + gate,
                         'a%s) call ParticipantImpl::performDataActions(this(), set(init(*Timing[1], (Action::%s_MAPPING_POST))*))' % (d, d) + gate]
                order += ['order m%s < a%s' % (d, d)]
        if op == 'initialize':
            text += ['c) call CouplingScheme::initialize(_couplingScheme)']
            order += ['order aWRITE < c', 'order c < aREAD']
        ctx.spec('timing', f, '\n'.join(text + order))
        n = len(f.call('ParticipantImpl::performDataActions'))
        ctx.ob('timing', '%s runs the actions of each timing once' % op, n == len(order) - 2 * (op == 'initialize'), '%s:%d' % (f.F.file, f.F.line), 'runs actions %d times' % n)
    for q, v in (('getTiming', '_timing'), ('getMesh', '_mesh')):
        ctx.spec('timing', A_ + 'Action::' + q, 'ret return() = %s' % v)
    # all configured actions reach the participant, and only actions on meshes it uses
    f = ctx.fn('precice::config::ParticipantConfiguration::finishParticipantConfiguration') if ctx.funcs('precice::config::ParticipantConfiguration::finishParticipantConfiguration') else ctx.fn('precice::ParticipantConfiguration::finishParticipantConfiguration')
    ctx.spec('timing', f, '''
        for ActionConfiguration::extractActions(_actionConfig): call ParticipantState::addAction(idx(_participants, "back"), elem(ActionConfiguration::extractActions(_actionConfig)))
        throws? | {any(_actionConfig._actions: !ParticipantState::isMeshUsed(idx(_participants, "back"), elem(_actionConfig._actions)._mesh._name))}
    ''')


def configured(ctx):
    """the values of an action tag and of its subtags are kept until its end, where the action is created"""
    tag = '{(TAG == arg1._namespace)}'
    names = ['TAG_SOURCE_DATA', 'TAG_TARGET_DATA', 'TAG_MODULE_PATH', 'TAG_MODULE_NAME']
    isn = {n: '!%s & {(%s == arg1._name)}' % (tag, n) for n in names}
    val = 'XMLTag::getStringAttributeValue(arg1, ATTR_%s, std::nullopt)'
    ctx.spec('configured', CFG + 'xmlTagCallback', '\n'.join([
        'r) call ConfiguredAction::operator=(_configuredAction, ConfiguredAction()) | %s' % tag,
        't) store ConfiguredAction::type(_configuredAction.type) = arg1._name | %s' % tag,
        'w) store ConfiguredAction::timing(_configuredAction.timing) = %s | %s' % (val % 'TIMING', tag),
        'm) store ConfiguredAction::mesh(_configuredAction.mesh) = %s | %s' % (val % 'MESH', tag),
        'order r < t', 'order r < w', 'order r < m',
        'when call vector::push_back(_configuredAction.sourceDataVector, %s) | %s' % (val % 'NAME', isn['TAG_SOURCE_DATA']),
        'only call vector::push_back(_configuredAction.sourceDataVector, %s) | %s' % (val % 'NAME', isn['TAG_SOURCE_DATA'])]
        + ['only store ConfiguredAction::%s(*) = %s | %s' % (k, val % 'NAME', isn[n]) for k, n in (('targetData', 'TAG_TARGET_DATA'), ('path', 'TAG_MODULE_PATH'), ('module', 'TAG_MODULE_NAME'))]))
    f = ctx.fn(CFG + 'xmlTagCallback')
    # the names of the tags are different constants, so a tag is at most one of them
    for k, n in (('targetData', 'TAG_TARGET_DATA'), ('path', 'TAG_MODULE_PATH'), ('module', 'TAG_MODULE_NAME')):
        other = ' & '.join('!{(%s == arg1._name)}' % m for m in names + ['TAG_CONVERGENCE_TOLERANCE', 'TAG_MAX_ITERATIONS'] if m != n)
        g = f.given('!%s & {(%s == arg1._name)} & %s' % (tag, n, other))
        ctx.spec('configured', g, 'when store ConfiguredAction::%s(_configuredAction.%s) = %s' % (k, k, val % 'NAME'))
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n != 'createAction'
    ctx.spec('configured', ctx.fn(CFG + 'xmlEndTagCallback', policy=keep), 'call ActionConfiguration::createAction(this()) | %s' % tag)
    ctx.spec('configured', CFG + 'getTiming', '''
        ret return() = Action::WRITE_MAPPING_POST | {(WRITE_MAPPING_POST == _configuredAction.timing)}
        ret return() = Action::READ_MAPPING_POST | !{(WRITE_MAPPING_POST == _configuredAction.timing)}
        throws | !{(READ_MAPPING_POST == _configuredAction.timing)} & !{(WRITE_MAPPING_POST == _configuredAction.timing)}
    ''')
    f = [ctx.analyse(F) for F in ctx.funcs(CFG + 'ActionConfiguration')][0]
    want = {'NAME_DIVIDE_BY_AREA': 'divide-by-area', 'NAME_MULTIPLY_BY_AREA': 'multiply-by-area', 'NAME_SUMMATION': 'summation', 'NAME_PYTHON': 'python', 'NAME_RECORDER': 'recorder',
            'TAG_SOURCE_DATA': 'source-data', 'TAG_TARGET_DATA': 'target-data', 'TAG_MODULE_PATH': 'path', 'TAG_MODULE_NAME': 'module',
            'WRITE_MAPPING_POST': 'write-mapping-post', 'READ_MAPPING_POST': 'read-mapping-post'}
    got = {}
    for e in f.events:
        if e.kind == 'store':
            got.setdefault(e.q.split('::')[-1], []).append(f.n(e.val))
    for k, v in want.items():
        ctx.ob('configured', '%s is called "%s"' % (k, v), got.get(k) == ['"%s"' % v], '%s:%d' % (f.F.file, f.F.line), 'found %s' % got.get(k))
    ctx.seen.add(f.F.d.u)


def created(ctx):
    """each kind of action is created with the timing, the mesh, and the IDs of the data of that mesh"""
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n != 'getTiming'
    f = ctx.fn(CFG + 'createAction', policy=keep)
    tim = 'ActionConfiguration::getTiming(this())'
    mesh = 'MeshConfiguration::getMesh(_meshConfig, _configuredAction.mesh)'
    nt = '{(size(_configuredAction.targetData) == 0)}'
    ns = '{(size(_configuredAction.sourceDataVector) == 0)}'
    tgt = 'Mesh::data(%s, _configuredAction.targetData)._id' % mesh
    kinds = {'NAME_MULTIPLY_BY_AREA': ('ScaleByAreaAction', ['timing', 'target', 'mesh', 'ScaleByAreaAction::SCALING_MULTIPLY_BY_AREA']),
             'NAME_DIVIDE_BY_AREA': ('ScaleByAreaAction', ['timing', 'target', 'mesh', 'ScaleByAreaAction::SCALING_DIVIDE_BY_AREA']),
             'NAME_SUMMATION': ('SummationAction', ['timing', 'sources', 'target', 'mesh']),
             'NAME_PYTHON': ('PythonAction', ['timing', '_configuredAction.path', '_configuredAction.module', 'mesh', 'target', 'source'])}
    loc = '%s:%d' % (f.F.file, f.F.line)
    for k, (cls, args) in kinds.items():
        is_k = ' & '.join(('' if m == k else '!') + '{(%s == _configuredAction.type)}' % m for m in list(kinds) + ['NAME_RECORDER'])
        for has_t in ('!' + nt, nt):
            for has_s in ('!' + ns, ns):
                g = f.given('%s & %s & %s' % (is_k, has_t, has_s))
                made = [e for e in g.events if e.kind == 'new' and 'Action' in e.q]
                det = '' if len(made) == 1 else '%d actions created' % len(made)
                for e in made:
                    if not e.q.endswith(cls):
                        det = det or 'creates %s' % e.q
                    a = [g.n(x) for x in e.args]
                    if len(a) != len(args):
                        det = det or 'has %d arguments' % len(a)
                    for got, w in zip(a, args):
                        ok = {'timing': got == tim, 'mesh': got == mesh, 'target': got == (tgt if has_t[0] == '!' else '-1'),
                              'sources': got.startswith('lout(') or ns == has_s, 'source': got == '-1' or got.startswith('[(size(lout(vector(), phi)) == 0) ? -1 : ') if ns == has_s else bool(re.match(r'vector::back\(', got))}.get(w, got == w)
                        if not ok:
                            det = det or 'argument for %s is %s' % (w, got[:100])
                    if not g.A.B.implies(g.N, e.g):
                        det = det or 'created only if %s' % g.n.gate(e.g)[:200]
                ctx.ob('created', '%s %s target, %s source data' % (k, 'with' if has_t[0] == '!' else 'without', 'with' if has_s[0] == '!' else 'without'), not det, loc, det)
    ctx.spec('created', f, '''
        for _configuredAction.sourceDataVector: call vector::push_back(*, Mesh::data(%s, elem(_configuredAction.sourceDataVector))._id)
        call list::push_back(_actions, *)
        throws? | !{MeshConfiguration::hasMeshName(_meshConfig, _configuredAction.mesh)}
        throws? | !%s & !{Mesh::hasDataName(%s, _configuredAction.targetData)}
        throws? | {any(_configuredAction.sourceDataVector: !Mesh::hasDataName(%s, elem(_configuredAction.sourceDataVector)))}
    ''' % (mesh, nt, mesh, mesh))


def constructed(ctx):
    """constructors keep what they are given and look the data up by ID in the mesh"""
    def one(cls, text):
        F = [F for F in ctx.funcs(A_ + '%s::%s' % (cls, cls)) if len(F.params) > 1]
        for F in F:
            ctx.spec('constructed', ctx.analyse(F), text)
        ctx.need('constructor of ' + cls, len([F]))
    for F in ctx.funcs(A_ + 'Action::Action'):
        if len(F.params) >= 2:
            ctx.spec('constructed', ctx.analyse(F), '''
                final _timing = arg0
                final _mesh = arg1
            ''' + ('final _meshRequirement = arg2' if len(F.params) > 2 else ''))
    one('ScaleByAreaAction', '''
        base Action(arg0, arg2, MeshRequirement::FULL)
        final _targetData = Mesh::data(arg2, arg1)
        final _scaling = arg3
    ''')
    one('SummationAction', '''
        base Action(arg0, arg3, MeshRequirement::VERTEX)
        final _targetData = Mesh::data(arg3, arg2)
        for arg1: call vector::push_back(_sourceDataVector, Mesh::data(arg3, elem(arg1)))
        throws | {any(_sourceDataVector: !(Mesh::data(arg3, arg2)._dimensions == elem(_sourceDataVector)._dimensions))}
    ''')
    F = [F for F in ctx.funcs(A_ + 'PythonAction::PythonAction') if len(F.params) == 6][0]
    f = ctx.analyse(F)
    ctx.spec('constructed', f, '''
        base Action(arg0, arg3)
        final _moduleName = arg2
    ''')
    for t in (0, 1):
        for s in (0, 1):
            g = f.given('%s{(arg4 == -1)} & %s{(arg5 == -1)}' % ('!' * t, '!' * s))
            ctx.spec('constructed', g, '''
                final _numberArguments = %s
                final _targetData = %s
                final _sourceData = %s
            ''' % (('1', '2 || final _numberArguments = 1+1', '3 || final _numberArguments = 1+2')[t + s], 'Mesh::data(_mesh, arg4)' if t else 'PtrData()', 'Mesh::data(_mesh, arg5)' if s else 'PtrData()'))


def scaling(ctx):
    """every sample of the target data is multiplied or divided, component by component, by the share of its vertex in the edges or triangles"""
    f0 = ctx.fn(A_ + 'ScaleByAreaAction::performAction', policy=inlined(ctx))
    ctx.spec('scaling', f0, '''
        throws | {any(Data::stamples(_targetData): [!(_mesh._dimensions == 2) & (size(_mesh._triangles) == 0) | (_mesh._dimensions == 2) & (size(_mesh._edges) == 0)])}
    ''')
    S, V = 'Data::stamples(_targetData)', '_targetData._sample.values'
    for dim, elems, el, n, share in (('', '_mesh._edges', 'Edge', 2, ('Edge::getEnclosingRadius(elem(_mesh._edges))', '(Edge::getLength(elem(_mesh._edges)) / 2)')),
                                     ('!', '_mesh._triangles', 'Triangle', 3, ('(Triangle::getArea(elem(_mesh._triangles)) / 3)',))):
        for kind, sc in (('DIVIDE', '{(_scaling == ScaleByAreaAction::SCALING_DIVIDE_BY_AREA)} & !{(_scaling == ScaleByAreaAction::SCALING_MULTIPLY_BY_AREA)}'),
                         ('MULTIPLY', '!{(_scaling == ScaleByAreaAction::SCALING_DIVIDE_BY_AREA)} & {(_scaling == ScaleByAreaAction::SCALING_MULTIPLY_BY_AREA)}')):
            f = f0.given('%s{(_mesh._dimensions == 2)} & !{(size(%s) == 0)} & %s' % (dim, elems, sc))
            loc = '%s:%d' % (f.F.file, f.F.line)
            what = '%s, %dd' % (kind.lower(), 2 if not dim else 3)
            # shares
            got = {}
            areas = None
            for e in f.events:
                if e.kind == 'store' and e.q == 'lv':
                    slot, val = f.n(e.args[0]), f.n(e.val)
                    m = re.match(r'idx\((\$\[.*\]), %s::vertex\(elem\(%s\), (\d|iv)\)\._id\)$' % (el, re.escape(elems)), slot)
                    x = ['[0, %d)' % n] if m and m[2] == 'iv' else []      # a loop over the vertices
                    ok = m and 'DenseBase::Zero(Mesh::nVertices(_mesh))' in m[1] and val in [y for sh in share for y in ('%s+%s' % (sh, slot), '%s+%s' % (slot, sh))] \
                        and [f.rng(l) for l in e.loops] in [[S, elems] + x, [elems] + x] and f.A.B.implies(f.N, e.g)
                    for k in (range(n) if x else [m[2] if m else slot]):
                        got.setdefault(str(k), []).append(ok)
                    areas = m[1] if m else areas
            ctx.ob('scaling', what + ': each vertex gets its share of each ' + el.lower(), got == {str(i): [True] for i in range(n)}, loc, 'found %s' % got)
            # scaled components
            res = []
            for e in f.events:
                if e.kind == 'store' and f.n(e.args[0]).startswith('idx(' + V):
                    rng = [f.rng(l) for l in e.loops]
                    f.n.within(e.loops)
                    g = (f.n(e.args[0]), f.n(e.val))
                    f.n.within([])
                    slot = 'idx(%s, _targetData._dimensions*iv1+iv)' % V
                    w = ['(%s / idx(%s, iv1))' % (slot, areas)] if kind == 'DIVIDE' else ['idx(%s, iv1)*%s' % (areas, slot), '%s*idx(%s, iv1)' % (slot, areas)]
                    res.append(g[0] == slot and g[1] in w and len(rng) == 3 and rng[0] == S and (rng[1].startswith('lout(') or rng[1] == '[0, Mesh::nVertices(_mesh))')
                               and rng[2] == '[0, _targetData._dimensions)' and f.A.B.implies(f.N, e.g))
            ctx.ob('scaling', what + ': each component of each value is scaled once', res == [True], loc, 'found %s' % res)
    lab = {}
    ctx.spec('scaling', f0, '''
        c) for %s: store Sample::values(%s) = elem(%s).sample.values
        s) for %s: call Data::setSampleAtTime(_targetData, elem(%s).timestamp, _targetData._sample)
    ''' % (S, V, S, S, S), labels=lab)
    once(ctx, 'scaling', f0, 'Data::setSampleAtTime')
    sc = [e for e in f0.events if e.kind == 'store' and f0.n(e.args[0]).startswith('idx(' + V)]
    cp, st = list(lab['c']), list(lab['s'])
    ctx.ob('scaling', 'the sample is copied, scaled and stored, in this order', len(cp) == len(st) == 1 and sc and all(cp[0].seq < e.seq < st[0].seq for e in sc), cp[0].loc if cp else '')


def summation(ctx):
    f = ctx.fn(A_ + 'SummationAction::performAction', policy=inlined(ctx))
    R = 'Data::stamples(idx(_sourceDataVector, 0))'
    ctx.spec('summation', f, '''
        z) for R: call DenseBase::setZero(_targetData._sample.values)
        a) for R >> _sourceDataVector: call MatrixBase::operator+=(_targetData._sample.values, idx(Data::stamples(elem(_sourceDataVector)), iv1).sample.values)
        s) for R: call Data::setSampleAtTime(_targetData, idx(R, iv).timestamp, _targetData._sample)
        order z < a < s
        throws | {any(R: any(_sourceDataVector: !math::equals(idx(Data::stamples(elem(_sourceDataVector)), iv).timestamp, idx(R, iv).timestamp, 1e-14)))}
    '''.replace('for R', 'for ' + R).replace('(R,', '(%s,' % R).replace('any(R:', 'any(%s:' % R))
    once(ctx, 'summation', f, 'Data::setSampleAtTime', 'DenseBase::setZero', 'MatrixBase::operator+=')


def python(ctx):
    """the module gets the time, the source and the target values of each sample, and works on these values in place"""
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n != 'initialize'
    f0 = ctx.fn(A_ + 'PythonAction::performAction', policy=keep)
    loc = '%s:%d' % (f0.F.file, f0.F.line)
    ctx.spec('python', f0, '''
        call PythonAction::initialize(this()) | !{_isInitialized}
    ''')
    S, T_ = 'Data::stamples(_sourceData)', 'Data::stamples(_targetData)'
    for case, src, tgt in (('source and target', 1, 1), ('only source', 1, 0), ('only target', 0, 1)):
        same = ' & {(size(%s) == size(%s))}' % (S, T_) if src and tgt else ''
        f = f0.given('{_isInitialized} & {_performAction} & %s{_sourceData} & %s{_targetData}%s' % ('' if src else '!', '' if tgt else '!', same))
        B = f.A.B
        rngs = [S, T_] if src and tgt else [S] if src else [T_]
        want = ['time'] + ['source'] * src + ['target'] * tgt
        got, runs, det = {}, [], ''
        for e in f.events:
            if e.kind != 'call' or not e.q.startswith('Py'):
                continue
            inside = len(e.loops) == 1 and f.rng(e.loops[0]) in rngs and B.implies(f.N, e.g)
            if e.q == 'PyTuple_SetItem':
                k, v = f.n(e.args[1]), f.n(e.args[2])
                elem = r'(?:elem\(Data::stamples\(_(?:source|target)Data\)\)|idx\((?:\$\[)?Data::stamples\(_(?:source|target)Data\)\]?, iv\))'
                m = re.match(r'PyFloat_FromDouble\((%s)\.timestamp\)$' % elem, v)
                a = re.match(r'\?idx\(static\(\)\.PyArray_API, 93\)\(idx\(PyArray_API, 2\), 1, init\(npy_intp\[1\], \(size\((%s)\.sample\.values\)\)\), NPY_DOUBLE, null\(\), PlainObjectBase::data\((%s)\.sample\.values\), 0,' % (elem, elem), v)
                kind = 'time' if m else ('source' if '_sourceData' in a[1] else 'target') if a and a[1] == a[2] else v[:80]
                if not inside:
                    det = det or 'argument %s is not set for every sample' % k
                got.setdefault(k, []).append((kind, e.seq))
            elif e.q == 'PyObject_CallObject':
                if not inside or 'PyTuple_SetItem' not in f.n(e.args[1]) or f.n(e.args[0]) != '_performAction':
                    det = det or 'the function is not called with the arguments of every sample'
                runs.append(e.seq)
            elif e.q == 'PyTuple_New' and f.n(e.args[0]) not in ('_numberArguments', str(len(want))):
                det = det or 'the number of arguments is ' + f.n(e.args[0])
        if {k: [x for x, _ in v] for k, v in got.items()} != {str(i): [w] for i, w in enumerate(want)}:
            det = det or 'arguments are %s' % got
        if len(runs) != 1 or any(s > runs[0] for v in got.values() for _, s in v):
            det = det or 'the function is called %d times, or before its arguments are set' % len(runs)
        ctx.ob('python', 'with %s data: arguments of each call' % case, not det, loc, det)
        back = f.call('Data::setGlobalSample')
        ok = [f.n(e.args[1]) in ('iterator_range_base::back(%s).sample' % T_, 'iterator_range_base::back($[%s]).sample' % T_) and not e.loops and B.implies(f.N, e.g) and e.seq > max(runs or [0]) for e in back]
        ctx.ob('python', 'with %s data: %s' % (case, 'the last sample becomes the current one' if tgt else 'no data is changed'), ok == [True] * tgt and all(f.n(e.args[0]) == '_targetData' for e in back), loc, 'found %s' % ok)
    both = '{_isInitialized} & {_performAction} & {_sourceData} & {_targetData}'
    ctx.spec('python', f0, '''
        throws? | BOTH & !{(size(%s) == size(%s))}
    '''.replace('BOTH', both) % (S, T_))
    B, sure = f0.A.B, f0.cond(both + ' & {(size(%s) == size(%s))}' % (S, T_))
    times = r'math::equals\((?:idx\(\$?\[?|elem\()Data::stamples\(_(source|target)Data\)\]?(?:, iv)?\)\.timestamp, (?:idx\(\$?\[?|elem\()Data::stamples\(_(source|target)Data\)\]?(?:, iv)?\)\.timestamp, 1e-14\)'
    th = []
    for e in f0.throws():
        m = re.search(times, f0.n.gate(e.g)) if len(e.loops) == 1 and f0.rng(e.loops[0]) in (S, T_) else None
        if m and m[1] != m[2] and B.implies(B.AND(sure, f0.cond('!{%s}' % m[0])), e.g):
            th.append(e)
    ctx.ob('python', 'samples at different times are an error', len(th) > 0, loc)
    none = f0.given('{_isInitialized} & !{_performAction}')
    used = [e for e in none.events if e.q in ('PyObject_CallObject', 'Data::setGlobalSample')]
    ctx.ob('python', 'a module without the function is not called', not used, used[0].loc if used else loc)
    # interpreter
    f = ctx.fn(A_ + 'PythonAction::initialize')
    mod = 'PyImport_Import(PyUnicode_FromString(basic_string::c_str(_moduleName)))'
    ctx.spec('python', f, '''
        call Py_Initialize()
        p) call PyRun_SimpleStringFlags(*c_str(cat(cat("sys.path.append('", _modulePath), "')")), *)
        i) call PyImport_Import(PyUnicode_FromString(basic_string::c_str(_moduleName)))
        order p < i
        final _module = MOD
        final _moduleNameObject = PyUnicode_FromString(basic_string::c_str(_moduleName))
        store PythonAction::_performAction(_performAction) = PyObject_GetAttrString(MOD, "performAction")
        throws? | !{MOD}
    '''.replace('MOD', mod))
    # several actions share the interpreter: it is released by its last user, and each action is a user once
    d = [ctx.analyse(F) for F in ctx.funcs(A_ + 'PythonAction::~PythonAction')][0]
    down = [e for e in d.events if e.kind == 'store' and d.n(e.val).replace('+-1*1', '-1') == d.n(e.args[0]) + '-1']
    X = d.n(down[0].args[0]) if len(down) == 1 else '?'
    up = [e for e in f.events if e.kind == 'store' and f.n(e.args[0]) == X]
    fin = list(d.call('Py_Finalize'))
    ctx.ob('python', 'an action counts as a user of the interpreter once its module is loaded', len(up) == 1 and f.n(up[0].val) == X + '+1' and f.n.gate(up[0].g) == mod and not up[0].loops, loc)
    ctx.ob('python', 'the interpreter is released by its last user', len(down) == len(fin) == 1 and d.n.gate(down[0].g) == '_module' and d.n.gate(fin[0].g) == '(%s == 1) & _module' % X, fin[0].loc if fin else loc)
    gone = [e for e in d.call('Py_DECREF') if fin and e.seq > fin[0].seq]
    ctx.ob('python', 'objects of the interpreter are released before it', not gone, gone[0].loc if gone else loc)
    ctx.spec('python', f, 'final _isInitialized = 1')
