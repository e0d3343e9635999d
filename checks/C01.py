"""Lifecycle typestate: for every public operation of a participant and every lifecycle state, the
operation's error condition and effects are specialised to that state on its gated path summary.
Rejected state: an error on every path and no effect before it; accepted state: not every path errs;
transitions: exactly the documented ones, at the documented point."""
from check import *

MIN = 150
STATES = [('Constructed', None), ('Initialized', True), ('Initialized', False), ('Finalized', None)]
# operation -> accepted subset of:  C (constructed)  I (initialised, coupling ongoing)  J (initialised, coupling over)  F
TABLE = {
    'initialize': 'C', 'advance': 'I', 'finalize': 'CIJ',
    'getMeshDimensions': 'CIJ', 'getDataDimensions': 'CIJ',
    'isCouplingOngoing': 'IJ', 'isTimeWindowComplete': 'IJ', 'getMaxTimeStepSize': 'IJ',
    'requiresInitialData': 'C', 'requiresWritingCheckpoint': 'IJ', 'requiresReadingCheckpoint': 'IJ',
    'requiresMeshConnectivityFor': 'CIJ', 'requiresGradientDataFor': 'CIJ',
    'getMeshVertexSize': 'CIJ', 'getMeshVertexIDsAndCoordinates': 'CIJ', 'setMeshAccessRegion': 'C',
    'resetMesh': 'I',
    'setMeshVertex': 'CIJ', 'setMeshVertices': 'CIJ', 'setMeshEdge': 'CIJ', 'setMeshEdges': 'CIJ',
    'setMeshTriangle': 'CIJ', 'setMeshTriangles': 'CIJ', 'setMeshQuad': 'CIJ', 'setMeshQuads': 'CIJ',
    'setMeshTetrahedron': 'CIJ', 'setMeshTetrahedra': 'CIJ',
    'writeData': 'CI', 'readData': 'IJ', 'mapAndReadData': 'IJ', 'writeAndMapData': 'I', 'writeGradientData': 'CIJ',
    'startProfilingSection': 'CIJF', 'stopLastProfilingSection': 'CIJF',
}
# owned components: unavailable before/after the initialised phase
COMPONENTS = ('_accessor', '_couplingScheme', '_solverAdvanceEvent')


def restrict(f, g, st, on):
    def val(a):
        if not isinstance(a, T):
            return None
        s = f.n.atom(a)
        m = re.match(r'\(_state == State::(\w+)\)$', s)
        if m:
            return m.group(1) == st
        if s == 'CouplingScheme::isCouplingOngoing(_couplingScheme)':
            return on
        return None
    return f.A.B.restrict(f.A.B.AND(g, f.axioms), val)


def uses(f, t, comp):
    return re.search(r'\(%s[,.)]' % comp, f.n(t)) is not None


def mutating(f, e):
    """effects on anything that outlives the call"""
    if e.kind == 'store':
        return not f.n(e.args[0]).startswith('$') and not e.q.startswith('lv')
    if e.kind == 'call':
        if e.q.startswith('std::') or e.d is None:
            return False
        return not e.inlined and not (e.d.cst and e.d.t != 'void') and e.d.c is not None and not e.q.startswith(('precice::utils::', 'precice::math::', 'fmt::', 'Eigen::')) and not e.d.st
    return False


def run(ctx):
    P = ctx.P
    base = {}
    impl = {f.d.q.split('::')[-1] for f in P.funcs.values() if f.d.c == 'precice::impl::ParticipantImpl'}
    # every operation the public participant class forwards to has a row in the table
    fw = set()
    n = 0
    for F in P.funcs.values():
        if F.d.c == 'precice::Participant' and F.body is not None and not F.dep and F.d.k not in ('ctor', 'dtor'):
            f = ctx.analyse(F)
            for e in f.events:
                if e.kind == 'call' and e.d is not None and e.d.c == 'precice::impl::ParticipantImpl' and len(e.stack) <= 1:
                    fw.add(e.q.split('::')[-1])
                    n += 1
    ctx.need('public operations', n, 30)
    for o in sorted(fw):
        ctx.ob('complete', 'operation %s has lifecycle requirements' % o, o in TABLE, '', 'operation without a row in the lifecycle table')
    for op, acc in sorted(TABLE.items()):
        F = [f for f in ctx.funcs('precice::impl::ParticipantImpl::' + op)]
        for F1 in F:
            f = ctx.analyse(F1)
            for (st, on), key in zip(STATES, 'CIJF'):
                th = restrict(f, f.A.throwg, st, on)
                if f.A.B.implies(restrict(f, 1, st, on), th):
                    th = 1
                if key in acc:
                    ctx.ob('accepted', '%s may succeed in state %s%s' % (op, st, '' if on is None else ', coupling %s' % ('ongoing' if on else 'over')), th != 1, '%s:%s' % (F1.file, F1.line), 'every path raises an error')
                    # its main work is actually reachable is checked by the operation's own property
                    continue
                name = '%s rejected in state %s%s' % (op, st, '' if on is None else ', coupling %s' % ('ongoing' if on else 'over'))
                ctx.ob('rejected', name, th == 1, '%s:%s' % (F1.file, F1.line), 'no error when: %s' % f.n.gate(f.A.B.NOT(th), 2)[:300] if th != 1 else '')
                bad = [e for e in f.events if mutating(f, e) and restrict(f, e.g, st, on)]
                ctx.ob('no effect when rejected', name, not bad, bad[0].loc if bad else '', bad and f.text(bad[0])[:200])
                if st == 'Finalized':
                    # components are gone after finalize: nothing may be asked of them
                    bad = [(e, c) for e in f.events for c in COMPONENTS if e.kind in ('call', 'ret', 'store') and restrict(f, e.g, st, on)
                           and any(isinstance(x, T) and uses(f, T('call', 'x', (x,)), c) for x in e.args[:1])]
                    ctx.ob('no use of released components', name, not bad, bad[0][0].loc if bad else '', bad and 'uses %s: %s' % (bad[0][1], f.text(bad[0][0])[:200]))
    # transitions
    for F in P.funcs.values():
        if F.d.c != 'precice::impl::ParticipantImpl' or F.body is None or F.dep:
            continue
        f = ctx.analyse(F)
        nm = F.d.q.split('::')[-1]
        s = f.store('ParticipantImpl::_state')
        s = Sel(f, [e for e in s if not [x for x in e.stack[1:]]] or list(s), s.desc)
        direct = {'initialize': 'Initialized', 'finalize': 'Finalized'}
        if nm in direct:
            ctx.spec('transition', f, 'store ParticipantImpl::_state(*) = State::%s' % direct[nm])
            ctx.spec('transition', f, 'none store ParticipantImpl::_state(*) = re:(?!State::%s).*' % direct[nm])
        elif F.d.k == 'dtor' or nm.startswith('~'):
            ctx.spec('transition', f, 'store ParticipantImpl::_state(*) = State::Finalized | !{(_state == State::Finalized)}')
        elif F.d.k == 'ctor':
            pass
        else:
            for e in s:
                ctx.ob('transition', '%s does not change the lifecycle state' % nm, False, e.loc, f.text(e))
    I = ctx.fn('precice::impl::ParticipantImpl::initialize')
    ctx.spec('transition', I, '''
    a) call CouplingScheme::initialize(_couplingScheme)
    c) store ParticipantImpl::_state(*) = State::Initialized
    order a < c
    ''')
    D = ctx.fn('precice::impl::ParticipantImpl::finalize')
    ctx.spec('release', D, '''
    a) call CouplingScheme::finalize(_couplingScheme) | {(_state == State::Initialized)}
    m) for _m2ns: call M2N::closeConnection(*) | {(_state == State::Initialized)} & {*_isPrimaryRankConnected}
    b) store ParticipantImpl::_couplingScheme(*) = null()
    c) store ParticipantImpl::_accessor(*) = null()
    d) call map::clear(_m2ns)
    i) call Communication::closeConnection(IntraComm::getCommunication()) | {IntraComm::isParallel()}
    z) call Parallel::finalizeOrCleanupMPI()
    s) store ParticipantImpl::_state(*) = State::Finalized
    order a < b
    order m < d
    order a < m
    order a < c
    order m < i
    order i < z
    order d < z
    ''')
    # initial state
    n = 0
    for F in ctx.funcs('precice::impl::ParticipantImpl::ParticipantImpl'):
        f = ctx.analyse(F)
        s = f.store('ParticipantImpl::_state')
        n += 1
        ctx.ob('transition', 'constructor leaves the state Constructed', len(s) and match('*State::Constructed*', f.n(s[-1].val)), s.loc, [f.text(e) for e in s])
    ctx.need('constructors', n)
