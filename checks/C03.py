"""Mesh locking: meshes may be modified only between construction (or a mesh reset) and the next
initialize/advance, and only by the participant that provides them. The gated path summary of every
mesh-modifying operation, of initialize, advance, resetMesh and of the lock container is compared with the
locking protocol; the source tree is enumerated for any other place that locks, unlocks or modifies."""
from check import *
from api import *

MIN = 60
WE = '{CouplingScheme::addComputedTime(_couplingScheme, arg0)}'
RM = '{_allowsRemeshing}'
MODS = {'setMeshVertex': 'createVertex', 'setMeshVertices': 'createVertex', 'setMeshEdge': 'createEdge', 'setMeshEdges': 'createEdge',
        'setMeshTriangle': 'createTriangle', 'setMeshTriangles': 'createTriangle', 'setMeshQuad': 'createTriangle', 'setMeshQuads': 'createTriangle',
        'setMeshTetrahedron': 'createTetrahedron', 'setMeshTetrahedra': 'createTetrahedron'}


def run(ctx):
    for op, c in sorted(MODS.items()):
        f = ctx.fn(IMPL + op)
        B = f.A.B
        for what, cond in (('locked', LOCK), ('not provided here', '!' + PROV), ('unknown', '!' + HASMESH), ('unused', '!' + USED), ('finalized', FIN)):
            ctx.throws('modification refused', f, '%s' % cond, mode='when') if what in ('finalized', 'unknown') else \
                ctx.throws('modification refused', f, '!%s & %s & %s' % (FIN, HASMESH, cond), mode='when')
        s = f.call('Mesh::create*')
        ctx.need(op + ' creates', len(s))
        for e in s:
            bad = B.AND(e.g, f.cond('%s | !%s | !%s' % (LOCK, PROV, HASMESH)))
            bad = B.AND(bad, f.axioms)
            ctx.ob('no modification of a locked mesh', '%s: %s unreachable for locked/foreign/unknown meshes' % (op, short(e.q)), bad == 0, e.loc, f.n.gate(bad, 2)[:300] if bad else '')
    # definitions of the lock container
    for q, np, l in [
        ('MultiLock::add', 2, 'call map::emplace(_locks, arg0, arg1)'),
        ('MultiLock::unlock', 1, 'throws | !{contains(_locks, arg0)}\nstore second(find(_locks, arg0).second) = 0'),
        ('MultiLock::lockAll', 0, 'for _locks: store second(elem(_locks).second) = 1'),
        ('MultiLock::clear', 0, 'call map::clear(_locks)'),
        ('MultiLock::check', 1, 'throws | !{contains(_locks, arg0)}\nreturns | {find(_locks, arg0).second}'),
        ('MultiLock::checkAll', 0, 'returns | !{any(_locks: !elem(_locks).second)}'),
    ]:
        fs = [F for F in ctx.funcs('precice::utils::' + q, must=False) if len(F.params) == np]   # unused ones are not instantiated
        for F in fs:
            ctx.spec('lock container', ctx.analyse(F), l)
    # protocol
    ctx.spec('protocol', ctx.fn(IMPL + 'configure'), '''
        clear) call MultiLock::clear(_meshLock)
        add) for *_usedMeshContexts: call MultiLock::add(_meshLock, impl::getMesh(elem(*))._name, 0)
        none call MultiLock::add(*, 1)
        order clear < add
    ''')
    ctx.spec('protocol', ctx.fn(IMPL + 'initialize'), '''
        pre) for _accessor._providedMeshContexts: call Mesh::preprocess(elem(*).mesh)
        part) for *_usedMeshContexts*: call Partition::compute(*)
        lock) call MultiLock::lockAll(_meshLock)
        init) call CouplingScheme::initialize(_couplingScheme)
        order pre < part < lock < init
        none call MultiLock::unlock*
    ''')
    adv = ctx.fn(IMPL + 'advance')
    ctx.spec('protocol', adv, '''
        lock) call MultiLock::lockAll(_meshLock)
        stamp) for *_usedMeshContexts: call Mesh::clearDataStamples(impl::getMesh(elem(*))) | %s & %s & {(0 < idx($, *))}
        count) for *_usedMeshContexts: call vector::push_back(*, [MultiLock::check(_meshLock, impl::getMesh(elem(*))._name) ? 0 : 1]) | %s & %s
        sum) call IntraComm::allreduceSum(*) | %s & %s
        order count < sum < stamp < lock
        none call MultiLock::unlock*
    ''' % (WE, RM, WE, RM, WE, RM))
    ctx.throws('protocol', adv, '!{(_state == State::Constructed)} & !{(_state == State::Finalized)} & {(_state == State::Initialized)} & {(size(_userEvents) == 0)} & %s & !%s & !{MultiLock::checkAll(_meshLock)}' % (RM, WE), mode='when')
    # remeshing: a change anywhere leads to re-initialisation of the mesh-dependent parts everywhere, none otherwise
    B = adv.A.B
    for pat in ('Mesh::preprocess', 'Partition::compute', 'MeshContext::clearMappings', 'Mesh::allocateDataValues', 'CouplingScheme::reinitialize', 'M2N::closeDistributedConnections', 'BoundM2N::connectPrimaryRanks', 'BoundM2N::cleanupEstablishment'):
        s = adv.call(pat)
        ctx.ob('remesh', 'advance redoes %s' % pat, len(s) > 0, s.loc)
        ctx.only('remesh', s, '%s & %s & {out(IntraComm::broadcast)*}' % (WE, RM))
    s = adv.call('CouplingScheme::reinitialize')
    g = 0
    for e in s:
        g = B.OR(g, B.AND(e.g, adv.N))
    for a in adv.atoms('out(IntraComm::broadcast)*'):
        g = B.exists(g, lambda x, a=a: x == a)
    want = adv.cond(WE + ' & ' + RM)
    ctx.ob('remesh', 'the agreement reached in a remeshing time window alone decides on re-initialisation', g == B.AND(want, adv.N), s.loc, adv.n.gate(g, 2)[:300])
    ctx.spec('remesh', IMPL + 'resetMesh', '''
        u) call MultiLock::unlock(_meshLock, arg0)
        c) call Mesh::clear(ParticipantState::meshContext(_accessor, arg0).mesh)
    ''')
    # nobody else touches the locks
    ok = {'lockAll': {'initialize', 'advance'}, 'unlock': {'resetMesh'}, 'clear': {'configure'}, 'add': {'configure'}, 'lock': set(), 'unlockAll': set()}
    callers(ctx, ok)


def callers(ctx, ok):
    """who reaches each locking/modifying operation over the call graph"""
    api = [F for q, fs in ctx.P.byq.items() if q.startswith(IMPL) and q.count('::') == 3 for F in fs if F.body is not None]
    pub = [F for F in api if F.d.acc == 0]
    ctx.need('interface functions', len(pub), 30)
    create = {'createVertex', 'createEdge', 'createTriangle', 'createTetrahedron'}
    grow = {'initialize', 'advance'}      # partitioning of received meshes
    for F in sorted(pub, key=lambda F: F.d.q):
        n = short(F.d.q).split('::')[-1]
        r = {ctx.P.funcs[u].d.q for u in ctx.E.reach([F.d.u]) if u in ctx.P.funcs}
        lk = {x.rsplit('::', 1)[1] for x in r if re.match(r'precice::utils::MultiLock<.*>::\w+$', x)} & set(ok)
        md = {x.rsplit('::', 1)[1] for x in r if x.startswith('precice::mesh::Mesh::')} & (create | {'clear', 'vertex'} - {'vertex'})
        bad = {m for m in lk if n not in ok[m] and n != 'ParticipantImpl'}
        ctx.ob('who locks', '%s changes no lock it must not change' % n, not bad, '%s:%s' % (F.file, F.line), str(sorted(bad)))
        bad = {m for m in md if not (n in MODS or n in grow or (n == 'resetMesh' and m == 'clear'))}
        ctx.ob('who modifies', '%s modifies no mesh' % n if n not in MODS and n not in grow | {'resetMesh'} else '%s modifies meshes' % n, not bad, '%s:%s' % (F.file, F.line), str(sorted(bad)))
