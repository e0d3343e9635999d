"""Argument validation: for every data/mesh operation of the participant interface the exact error
condition is computed from its gated path summary and compared with the required one (as Boolean
functions over the source's own predicates); no state change may be reachable on an erring path; the
predicates themselves (known mesh/data, valid vertex id, ...) are checked against their definitions."""
from check import *
from api import *

MIN = 90
E0 = '{(size(arg2) == 0)}'


def run(ctx):
    quad = '{utils::unique_elements(utils::make_array(arg1, arg2, arg3, arg4)*} & {utils::unique_elements(mesh::coordsFor(%s, utils::make_array(arg1, arg2, arg3, arg4))*} & {geometry::isConvexQuad(mesh::coordsFor(%s, utils::make_array(arg1, arg2, arg3, arg4))).convex}' % (MESH, MESH)
    ids = lambda n: ' | '.join('!' + VALID(i) for i in range(1, n + 1))
    dims = '{(%s._dimensions == 3)}' % MESH
    access = '%s | !%s | (!%s & !%s)' % (FIN, HASMESH, PROV, DIRECT)
    rctx, wctx = 'ParticipantState::readDataContext(_accessor, arg0, arg1)', 'ParticipantState::writeDataContext(_accessor, arg0, arg1)'
    sz = lambda c, n: '{(-1*DataContext::getDataDimensions(%s)*size(arg2)+size(arg%d) == 0)}' % (c, n)
    empty = lambda n: '({(size(arg2) == 0)} & {(size(arg%d) == 0)})' % n
    time = '!{math::smallerEquals(arg3, CouplingScheme::getNextTimeStepMaxSize(_couplingScheme), 1e-14)} | {(arg3 < 0)} | (!%s & !{math::equals(arg3, 0, 1e-14)})' % ONG
    inv = lambda c: '{DataContext::locateInvalidVertexID(%s, arg2)}' % c
    fin = lambda a: '{any(%s: !std::isfinite(*))}' % a
    jit = lambda c, n: '{(-1*(size(arg2) / DataContext::getSpatialDimensions(%s))*DataContext::getDataDimensions(%s)+size(arg%d) == 0)}' % (c, c, n)
    needbb = '(%s & %s & !%s)' % (PAR, RECV, REGION)
    size = 'size(ReceivedMeshContext::filterVerticesToLocalAccessRegion(ParticipantState::receivedMeshContext(_accessor, arg0), *))'
    T = {
        'getMeshDimensions': '%s | !%s' % (FIN, HASMESH),
        'getDataDimensions': '%s | !%s | !%s' % (FIN, HASMESH, HASDATA),
        'requiresMeshConnectivityFor': '%s | !%s' % (FIN, HASMESH),
        'requiresGradientDataFor': '%s | !%s' % (FIN, HASDATA),
        'getMeshVertexSize': '%s | !%s | !%s | (!%s & !%s) | (%s & %s & %s & !%s)' % (FIN, HASMESH, USED, INI, PROV, RECV, DIRECT, PAR, REGION),
        'setMeshVertex': MODIFY + ' | !{(%s._dimensions == size(arg1))}' % MESH,
        'setMeshVertices': MODIFY + ' | !{(-1*%s._dimensions*size(arg2)+size(arg1) == 0)}' % MESH,
        'setMeshEdge': MODIFY + ' | %s & (%s)' % (FULL, ids(2)),
        'setMeshTriangle': MODIFY + ' | %s & (%s | !{utils::unique_elements(utils::make_array(arg1, arg2, arg3)*})' % (FULL, ids(3)),
        'setMeshQuad': MODIFY + ' | %s & (%s | !(%s))' % (FULL, ids(4), quad),
        'setMeshTetrahedron': MODIFY + ' | !%s | %s & (%s)' % (dims, FULL, ids(4)),
        'setMeshEdges': MODIFY + ' | %s & (!{((size(arg1) %% 2) == 0)} | !%s)' % (FULL, RANGEOK),
        'setMeshTriangles': MODIFY + ' | %s & (!{((size(arg1) %% 3) == 0)} | !%s)' % (FULL, RANGEOK),
        'setMeshTetrahedra': MODIFY + ' | !%s | %s & (!{((size(arg1) %% 4) == 0)} | !%s)' % (dims, FULL, RANGEOK),
        'setMeshQuads': MODIFY + ' | %s & (!{((size(arg1) %% 4) == 0)} | !%s | {any(ivrange(0, (size(arg1) / 4)): *!geometry::isConvexQuad*)})' % (FULL, RANGEOK),
        'writeData': '%s | !(%s | %s & %s) | %s | !%s | !{ParticipantState::isDataWrite(_accessor, arg0, arg1)} | !%s & (!%s | %s | %s)' % (
            FIN, CON, INI, ONG, access, HASDATA, empty(3), sz(wctx, 3), fin('arg3'), inv(wctx)),
        'readData': '%s | %s | %s | %s | !%s | !{ParticipantState::isDataRead(_accessor, arg0, arg1)} | !%s | !%s & (!{ReadDataContext::hasSamples(%s)} | !%s | %s)' % (
            CON, FIN, time, access, HASDATA, LOCK, empty(4), rctx, sz(rctx, 4), inv(rctx)),
        'writeGradientData': '!%s | %s | !%s | !{ParticipantState::isDataWrite(_accessor, arg0, arg1)} | !%s & {DataContext::hasGradient(%s)} & (%s | !{(-1*DataContext::getDataDimensions(%s)*DataContext::getSpatialDimensions(%s)*size(arg2)+size(arg3) == 0)} | %s)' % (
            EXP, access, HASDATA, empty(3), wctx, inv(wctx), wctx, wctx, fin('arg3')),
        'mapAndReadData': '!%s | %s | %s | %s | %s | !%s | !{ParticipantState::isDataRead(_accessor, arg0, arg1)} | %s | !%s | !%s | %s | {Mesh::empty(ParticipantState::receivedMeshContext(_accessor, arg0).mesh)} | !{DataContext::hasJustInTimeMapping(%s)} | !%s & !%s' % (
            EXP, CON, FIN, time, access, HASDATA, fin('*arg2*'), RECV, DIRECT, needbb, rctx, empty(4), jit(rctx, 4)),
        'writeAndMapData': '!%s | %s | %s | !(%s & %s) | %s | !%s | !{ParticipantState::isDataWrite(_accessor, arg0, arg1)} | %s | %s | !%s | !%s | %s | !{DataContext::hasJustInTimeMapping(%s)} | !%s & (!%s | {Mesh::empty(ParticipantState::receivedMeshContext(_accessor, arg0).mesh)})' % (
            EXP, FIN, CON, INI, ONG, access, HASDATA, fin('*arg2*'), fin('arg3'), RECV, DIRECT, needbb, wctx, empty(3), jit(wctx, 3)),
        'setMeshAccessRegion': '%s | !%s | !%s | !%s | !%s | %s | %s | !{(-1*size(arg1)+2*ParticipantState::receivedMeshContext(_accessor, arg0).mesh._dimensions == 0)} | {any(ivrange(0, ParticipantState::receivedMeshContext(_accessor, arg0).mesh._dimensions): (idx(arg1, 1+2*iv) < idx(arg1, 2*iv)))}' % (
            FIN, HASMESH, USED, RECV, DIRECT, INI, REGION),
        'getMeshVertexIDsAndCoordinates': '%s | !%s | !%s | !%s | !%s | %s | (!%s & !%s) | !({(size(arg1) == 0)} & {(size(arg2) == 0)}) & (!{(%s == size(arg1))} | !{(-1*ParticipantState::meshContext(_accessor, arg0).mesh._dimensions*%s+size(arg2) == 0)})' % (
            FIN, HASMESH, USED, RECV, DIRECT, needbb, INI, PROV, size, size),
        'startProfilingSection': '{contains(arg0, 47)}',
        'stopLastProfilingSection': '{(size(_userEvents) == 0)}',
        'resetMesh': '!%s | !{_allowsRemeshing} | !%s | %s | !%s | !%s | !{CouplingScheme::isTimeWindowComplete(_couplingScheme)}' % (EXP, INI, FIN, HASMESH, ONG),
    }
    for op, c in sorted(T.items()):
        f = ctx.fn(IMPL + op)
        ctx.throws('error condition', f, c)
        # nothing changes on a path which ends in an error
        B = f.A.B
        thr = B.AND(f.A.throwg, f.axioms)
        for e in f.events:
            if e.loops and e.kind != 'throw':
                continue
            if e.kind == 'store' and f.n(e.args[0]).startswith(('$', 'idx($')):
                continue
            if e.kind in ('store', 'call') and e.q.startswith(('ParticipantState', 'precice::impl::ParticipantState', 'precice::mesh::Mesh', 'precice::impl::')) and (
                    e.kind == 'store' or (e.d is not None and not e.d.cst and re.search(r'::(create\w+|allocate\w+|clear\w*|resize\w*|write\w+|read\w+|map\w+|expand\w*|unlock|lock|append\w*)$', e.q) and not re.search(r'(Contexts?)$', e.q))):
                bad = B.AND(e.g, thr)
                ctx.ob('no effect on error', '%s: %s only after all argument checks' % (op, short(e.q)), bad == 0, e.loc, 'reached before an error when: %s' % f.n.gate(bad, 2)[:300] if bad else '')
    # the work itself happens for all accepted arguments
    W = {
        'setMeshVertex': 'call Mesh::createVertex(%s, *arg1*)' % MESH,
        'setMeshVertices': 'for arg2: call Mesh::createVertex(%s, *col(*arg1*, iv)*)' % MESH,
        'setMeshEdge': 'call Mesh::createEdge(%s, %s, %s) | %s' % (MESH, V('arg1'), V('arg2'), FULL),
        'setMeshEdges': 'for [0, (size(arg1) / 2)): call Mesh::createEdge(%s, %s, %s) | %s' % (MESH, V('idx(arg1, 2*iv)'), V('idx(arg1, 1+2*iv)'), FULL),
        'setMeshTriangle': 'call Mesh::createTriangle(%s, %s, %s, %s) | %s' % (MESH, V('arg1'), V('arg2'), V('arg3'), FULL),
        'setMeshTriangles': 'for [0, (size(arg1) / 3)): call Mesh::createTriangle(%s, %s, %s, %s) | %s' % (MESH, V('idx(arg1, 3*iv)'), V('idx(arg1, 1+3*iv)'), V('idx(arg1, 2*1+3*iv)'), FULL),
        'setMeshTetrahedron': 'call Mesh::createTetrahedron(%s, %s, %s, %s, %s) | %s' % (MESH, V('arg1'), V('arg2'), V('arg3'), V('arg4'), FULL),
        'setMeshTetrahedra': 'for [0, (size(arg1) / 4)): call Mesh::createTetrahedron(%s, %s, %s, %s, %s) | %s' % (MESH, V('idx(arg1, 4*iv)'), V('idx(arg1, 1+4*iv)'), V('idx(arg1, 2*1+4*iv)'), V('idx(arg1, 3*1+4*iv)'), FULL),
        'writeData': 'call WriteDataContext::writeValuesIntoDataBuffer(%s, arg2, arg3) | !%s' % (wctx, empty(3)),
        'readData': 'call ReadDataContext::readValues(%s, arg2, CouplingScheme::getTime(_couplingScheme)+arg3, arg4) | !%s' % (rctx, empty(4)),
        'writeGradientData': 'call WriteDataContext::writeGradientsIntoDataBuffer(%s, arg2, arg3) | !%s & {DataContext::hasGradient(%s)}' % (wctx, empty(3), wctx),
        'mapAndReadData': 'call ReadDataContext::mapAndReadValues(%s, arg2, CouplingScheme::getTime(_couplingScheme)+arg3, arg4) | !%s' % (rctx, empty(4)),
        'writeAndMapData': 'call WriteDataContext::writeAndMapValues(%s, arg2, arg3) | !%s' % (wctx, empty(3)),
        'startProfilingSection': 'call deque::emplace_back(_userEvents, arg0, *)',
        'stopLastProfilingSection': 'call deque::pop_back(_userEvents)',
        'resetMesh': 'call Mesh::clear(ParticipantState::meshContext(_accessor, arg0).mesh)',
    }
    for op, l in sorted(W.items()):
        ctx.spec('work', ctx.fn(IMPL + op), l)
    for op in ('mapAndReadData', 'writeAndMapData'):
        n = 4 if op == 'mapAndReadData' else 3
        c = rctx if n == 4 else wctx
        ctx.spec('access region', ctx.fn(IMPL + op), '''
        a) call ReceivedMeshContext::checkVerticesInsideAccessRegion(ParticipantState::receivedMeshContext(_accessor, arg0), arg2, DataContext::getSpatialDimensions(%s), *) | !%s
        b) call %s(*) | !%s
        order a < b
        ''' % (c, empty(n), 'ReadDataContext::mapAndReadValues' if n == 4 else 'WriteDataContext::writeAndMapValues', empty(n)))
    # split of quads along the shorter diagonal, both halves created
    r = 'utils::reorder_array(geometry::isConvexQuad(*).vertexOrder, mesh::vertexPtrsFor(*'
    for op, lp in (('setMeshQuad', ''), ('setMeshQuads', 'for [0, (size(arg1) / 4)): ')):
        f = ctx.fn(IMPL + op)
        s = f.call('Mesh::createTriangle')
        B = f.A.B
        tri = {}
        for e in s:
            k = tuple(re.search(r', (\d)\)$', f.n(x)).group(1) if re.search(r', (\d)\)$', f.n(x)) else '?' for x in e.args[1:])
            tri.setdefault(frozenset(k), []).append(e)
        g = {k: 0 for k in tri}
        for k, es in tri.items():
            for e in es:
                g[k] = B.OR(g[k], B.AND(e.g, f.N))
        a = g.get(frozenset('021'), 0), g.get(frozenset('023'), 0)
        b = g.get(frozenset('130'), 0), g.get(frozenset('132'), 0)
        tot = B.AND(f.cond(FULL), f.N)
        ok = a[0] == a[1] and b[0] == b[1] and B.AND(a[0], b[0]) == 0 and a[0] and b[0] and len(tri) == 4
        if op == 'setMeshQuad':
            ok = ok and B.OR(a[0], b[0]) == tot
        ctx.ob('quad split', '%s creates the two triangles on both sides of exactly one diagonal' % op, ok, s.loc, str({''.join(sorted(k)): f.n.gate(v, 2)[:150] for k, v in g.items()}))
    # definitions of the predicates
    S = 'precice::impl::ParticipantState::'
    for q, np, l in [
        ('precice::mesh::Mesh::isValidVertexID', 1, 'returns | !{(arg0 < 0)} & {(arg0 < size(_vertices))}'),
        ('precice::mesh::locateInvalidVertexID', 2, '''ret return() = std::nullopt | !{any(arg1: !Mesh::isValidVertexID(arg0, elem(arg1)))}
            ret return() = std::distance(begin(arg1), find_if(arg1: !Mesh::isValidVertexID(arg0, elem(arg1)))) | {any(arg1: !Mesh::isValidVertexID(arg0, elem(arg1)))}'''),
        (S + 'hasMesh', 1, 'returns | {*contains(_meshContexts, arg0)*}'),
        (S + 'isMeshUsed', 1, 'returns | {any(_usedMeshContexts: (arg0 == impl::getMesh(elem(_usedMeshContexts))._name))}'),
        (S + 'isMeshProvided', 1, 'returns | {any(_providedMeshContexts: (arg0 == elem(_providedMeshContexts).mesh._name))}'),
        (S + 'isMeshReceived', 1, 'returns | {any(_receivedMeshContexts: (arg0 == elem(_receivedMeshContexts).mesh._name))}'),
        (S + 'isDirectAccessAllowed', 1, '''returns | {any(_receivedMeshContexts: (arg0 == elem(_receivedMeshContexts).mesh._name))} & {find_if(_receivedMeshContexts: (arg0 == elem(_receivedMeshContexts).mesh._name)).allowDirectAccess}'''),
        (S + 'hasData', 2, 'returns | {any(_meshContexts: any(elem(_meshContexts).second.mesh._data: (arg1 == elem(*)._name)))}'),
        (S + 'isDataWrite', 2, 'returns | {*contains(_writeDataContexts, *(arg0, arg1)*}'),
        (S + 'isDataRead', 2, 'returns | {*contains(_readDataContexts, *(arg0, arg1)*}'),
    ]:
        ctx.spec('predicate', ctx.fn(q, np), l)
    f = ctx.fn('precice::impl::ReceivedMeshContext::checkVerticesInsideAccessRegion')
    s = f.throws()
    tx = f.n.gate(f.A.throwg)
    ctx.ob('predicate', 'checkVerticesInsideAccessRegion compares the minimal and the maximal coordinates with both bounds', all(w in tx for w in ('minCoeff', 'maxCoeff', '_boundMin', '_boundMax', 'rowwise')), s.loc, tx[:300])
    for F in ctx.funcs('precice::utils::find_first_range'):
        f = ctx.analyse(F)
        ctx.spec('predicate', f, '''
        call std::find_if(arg0, arg1, arg2)
        ret return() = pair(arg1, arg1) | {(arg1 == std::find_if(arg0, arg1, arg2))}
        ret return() = pair(std::find_if(arg0, arg1, arg2), *) | !{(arg1 == std::find_if(arg0, arg1, arg2))}
        ''')
