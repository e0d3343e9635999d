"""Exchange between participants: connections are established in pairs between the same partners under the same names, only with the
same version and configuration, and every value reaches the vertex it belongs to."""
from check import *
from api import *
from gssa import T

MIN = 120
M = 'precice::m2n::'
G = M + 'GatherScatterCommunication::'
P2P = M + 'PointToPointCommunication::'
SEC = '{IntraComm::isSecondary()}'


def run(ctx):
    handshake(ctx)
    forwarding(ctx)
    gatherscatter(ctx)
    p2p(ctx)
    binding(ctx)
    configuration(ctx)


def handshake(ctx):
    """the primary ranks connect under the same name, exchange version and configuration hash in opposite order, and refuse a partner that differs"""
    PR = '!' + SEC
    ver = set()
    for side, con, ORD in (('accept', 'acceptConnection(_interComm, arg0, arg1, "PRIMARYCOM", IntraComm::getRank(), 0)', 'S < R'),
                           ('request', 'requestConnection(_interComm, arg0, arg1, "PRIMARYCOM", 0, 1)', 'R < S')):
        f = ctx.fn(M + 'M2N::%sPrimaryRankConnection' % side)
        v = None
        for e in f.call('Communication::send'):
            m = re.match(r'cat\(cat\((".*?"), ";"\)', str(f.n(e.args[1])))
            v = m.group(1) if m else None
        ver.add(v)
        I = 'out(Communication::receive)'
        AT = 'basic_string_view::find(%s, ";", 0)' % I
        OK = '!{(%s == basic_string::npos)} & {(basic_string_view::substr(%s, 0, %s) == *%s*)} & {(arg2 == basic_string_view::substr(%s, 1+%s, basic_string_view::npos))}' % (AT, I, AT, v, I, AT)
        ctx.spec('partners are compatible', f, """
            C) call Communication::CON | @@
            con) when store M2N::_isPrimaryRankConnected(_isPrimaryRankConnected) = _interComm._isConnected | @@
            b1) call IntraComm::broadcast(*_isConnected*) | @@
            b2) call IntraComm::broadcast(_isPrimaryRankConnected) | !(@@)
            S) call Communication::send(_interComm, cat(cat(*, ";"), arg2), 0) | @@
            R) call Communication::receive(_interComm, *, 0) | @@
            order C < ORD < b1
            throws | @@ & !(OK)
        """.replace('OK', OK).replace('CON', con).replace('ORD', ORD).replace('@@', PR))
    ctx.ob('partners are compatible', 'both sides announce the same version', len(ver) == 1 and None not in ver, 'src/m2n/M2N.cpp', str(sorted(map(str, ver))))


def forwarding(ctx):
    """the M2N hands every value to the communication of its kind: values of a mesh to the one of that mesh, single values between the primary ranks"""
    ON, OFF = '!{_useOnlyPrimaryCom}', '{_useOnlyPrimaryCom}'
    SYNC = '!%s & %s & {precice::syncMode}' % (SEC, ON)
    ctx.spec('values take the right way', ctx.fn(M + 'M2N::send', nparams=3), """
        a1) call Communication::send(_interComm, 1, 0) | SYNC
        a2) call Communication::receive(_interComm, *, 0) | SYNC
        a3) call Communication::send(_interComm, out(Communication::receive), 0) | SYNC
        D) call DistributedCommunication::send(idx(_distComs, arg1), arg0, arg2) | ON
        P) call Communication::send(_interComm, arg0, 0) | OFF
        order a1 < a2 < a3 < D
    """.replace('SYNC', SYNC).replace('ON', ON).replace('OFF', OFF))
    ctx.spec('values take the right way', ctx.fn(M + 'M2N::receive', nparams=3), """
        a1) call Communication::receive(_interComm, bool(), 0) | SYNC
        a2) call Communication::send(_interComm, *, 0) | SYNC
        a3) call Communication::receive(_interComm, out(Communication::receive), 0) | SYNC
        D) call DistributedCommunication::receive(idx(_distComs, arg1), arg0, arg2) | ON
        P) call Communication::receive(_interComm, arg0, 0) | OFF
        order a1 < a2 < a3 < D
    """.replace('SYNC', SYNC).replace('ON', ON).replace('OFF', OFF))
    for F in ctx.funcs(M + 'M2N::send'):
        if len(F.params) == 1:
            ctx.spec('values take the right way', ctx.analyse(F), 'call Communication::send(_interComm, arg0, 0) | !%s' % SEC)
    for F in ctx.funcs(M + 'M2N::receive'):
        if len(F.params) == 1:
            ctx.spec('values take the right way', ctx.analyse(F), """
                R) call Communication::receive(_interComm, arg0, 0) | !%s
                B) call IntraComm::broadcast(arg0)
                order R < B
            """ % SEC)
    ctx.need('values take the right way', len(ctx.funcs(M + 'M2N::send')) + len(ctx.funcs(M + 'M2N::receive')), 10)
    for fn, args, call in (('broadcastSendMesh', 'arg0', 'broadcastSendMesh(%s)'), ('broadcastReceiveAllMesh', 'arg0', 'broadcastReceiveAllMesh(%s)'),
                           ('scatterAllCommunicationMap', 'arg1', 'scatterAllCommunicationMap(%s, arg0)'), ('gatherAllCommunicationMap', 'arg1', 'gatherAllCommunicationMap(%s, arg0)'),
                           ('broadcastSend', 'arg1', 'broadcastSend(%s, arg0)'), ('broadcastReceiveAll', 'arg1', 'broadcastReceiveAll(%s, arg0)')):
        ctx.spec('values take the right way', M + 'M2N::' + fn, 'call DistributedCommunication::' + call % ('idx(_distComs, %s._id)' % args))
    ctx.spec('values take the right way', M + 'M2N::createDistributedCommunication',
             'store M2N::_distComs(idx(_distComs, arg0._id)) = DistributedComFactory::newDistributedCommunication(_distrFactory, arg0)')
    for nm, cls in (('PointToPointComFactory', 'PointToPointCommunication'), ('GatherScatterComFactory', 'GatherScatterCommunication')):
        ctx.spec('values take the right way', M + nm + '::newDistributedCommunication', 'ret return() = *new(%s, (_*om*, arg0)*)' % cls)
    # ---- connections of all meshes
    for side in ('accept', 'request'):
        for pre in ('', 'Pre'):
            ctx.spec('all meshes are connected', M + 'M2N::%sSecondaryRanks%sConnection' % (side, pre), """
                for _distComs: call DistributedCommunication::%s%sConnection(elem(_distComs).second, arg0, arg1)
            """ % (side, pre))
    ctx.spec('all meshes are connected', M + 'M2N::completeSecondaryRanksConnection', 'for _distComs: call DistributedCommunication::completeSecondaryRanksConnection(elem(_distComs).second)')
    ctx.spec('all connections are closed', M + 'M2N::closeDistributedConnections', """
        for _distComs: call DistributedCommunication::closeConnection(elem(_distComs).second) | %s
    """ % ON)
    ctx.spec('all connections are closed', M + 'M2N::closeConnection', """
        for _distComs: call DistributedCommunication::closeConnection(elem(_distComs).second) | %s
        call Communication::closeConnection(_interComm) | !%s & {_interComm._isConnected}
        when store M2N::_isPrimaryRankConnected(_isPrimaryRankConnected) = 0 | !%s & {_interComm._isConnected}
        call IntraComm::broadcast(*)
    """ % (ON, SEC, SEC))


def gatherscatter(ctx):
    """gather-scatter: the primary rank collects the values of all ranks by the vertex distribution, adding up shared vertices, and hands every
    rank the values of its vertices; a rank without vertices takes part on neither side"""
    PR, NE = '!' + SEC, '!{(size(arg0) == 0)}'
    DIST = 'find(_mesh._vertexDistribution, elem(IntraComm::allSecondaryRanks())).second'
    HAS = '!{(size(%s) == 0)} & %s & {contains(_mesh._vertexDistribution, elem(IntraComm::allSecondaryRanks()))}' % (DIST, PR)
    ctx.spec('gather and scatter', G + 'send', """
        call Communication::send(IntraComm::getCommunication(), arg0, 0) | NE & SEC
        A0) for idx(_mesh._vertexDistribution, 0): call utils::add_n(idx(arg0, arg1*iv), arg1, idx($[vector(_mesh._globalNumberOfVertices*arg1*)], arg1*idx($, iv))) | PR
        bind ALL = A0.2
        R) for IntraComm::allSecondaryRanks(): call Communication::receive(IntraComm::getCommunication(), span(vector(arg1*size(DIST)*)), elem(IntraComm::allSecondaryRanks())) | HAS
        A) for IntraComm::allSecondaryRanks() >> DIST: call utils::add_n(idx($, arg1*iv), arg1, idx($ALL, arg1*elem(DIST))) | HAS
        S) call Communication::sendRange(_com, $ALL, 0) | PR
        order A0 < R < A < S
    """.replace('HAS', HAS).replace('DIST', DIST).replace('NE', NE).replace('PR', PR).replace('SEC', SEC))
    ctx.spec('gather and scatter', G + 'receive', """
        r) call Communication::receiveRange(IntraComm::getCommunication(), 0, com::asVector) | NE & SEC
        c) call std::copy(begin(Communication::receiveRange(IntraComm::getCommunication(), 0, *)), end(Communication::receiveRange(IntraComm::getCommunication(), 0, *)), begin(arg0)) | NE & SEC
        R) call Communication::receiveRange(_com, 0, com::asVector) | PR
        C0) for idx(_mesh._vertexDistribution, 0): call std::copy_n(idx($, arg1*<E0>), arg1, idx(arg0, arg1*iv)) | PR
        C) for IntraComm::allSecondaryRanks() >> DIST: call std::copy_n(idx($, arg1*elem(DIST)), arg1, idx($[vector(arg1*size(DIST)*)], arg1*iv)) | HAS
        bind PART = C.2
        S) for IntraComm::allSecondaryRanks(): call Communication::sendRange(IntraComm::getCommunication(), $PART, elem(IntraComm::allSecondaryRanks())) | HAS
        order R < C0
        order C < S
    """.replace('<E0>', 'idx($, iv)').replace('HAS', HAS).replace('DIST', DIST).replace('NE', NE).replace('PR', PR).replace('SEC', SEC))


def p2p(ctx):
    """point-to-point: the distributions of both sides are exchanged under a name of their own, known to all ranks, and every pair of ranks sharing
    vertices is connected and moves exactly these"""
    NEW = 'CommunicationFactory::newCommunication(_communicationFactory)'
    ctx.spec('distributions', M + 'send', """
        N) call Communication::send(arg2, size(arg0), arg1) || for arg0: call Communication::send(arg2, elem(arg0).first, arg1)
        call Communication::send(arg2, size(arg0), arg1)
        K) for arg0: call Communication::send(arg2, elem(arg0).first, arg1)
        V) for arg0: call Communication::sendRange(arg2, elem(arg0).second, arg1)
        order K < V
    """)
    ctx.spec('distributions', M + 'receive', """
        C) call map::clear(arg0)
        N) call Communication::receive(arg2, 0, arg1)
        K) for *: call Communication::receive(arg2, -1, arg1) || for *: call Communication::receive(arg2, -1, arg1) | {phi}
        V) for *: store par(idx(arg0, out(Communication::receive))) = Communication::receiveRange(arg2, arg1, com::asVector) || for *: store par(idx(arg0, out(Communication::receive))) = Communication::receiveRange(arg2, arg1, com::asVector) | {phi}
        order C < N < K < V
    """)
    ctx.spec('distributions', M + 'broadcastSend', """
        call Communication::broadcast(arg1, size(arg0))
        K) for arg0: call Communication::broadcast(arg1, elem(arg0).first)
        V) for arg0: call Communication::broadcast(arg1, elem(arg0).second)
        order K < V
    """)
    ctx.spec('distributions', M + 'broadcastReceive', """
        C) call map::clear(arg0)
        N) call Communication::broadcast(arg2, 0, arg1)
        K) for *: call Communication::broadcast(arg2, -1, arg1) || for *: call Communication::broadcast(arg2, -1, arg1) | {phi}
        V) for *: call Communication::broadcast(arg2, idx(arg0, out(Communication::broadcast)), arg1) || for *: call Communication::broadcast(arg2, idx(arg0, out(Communication::broadcast)), arg1) | {phi}
        order C < N < K < V
    """)
    for fn, op in (('receive', 'Communication::receive'), ('broadcastReceive', 'Communication::broadcast')):
        f = ctx.fn(M + fn)
        es = [e for e in f.call(op) if e.loops]
        ctx.need('distributions', len(es), 1)
        for e in es:
            ctx.ob('distributions', '%s: as many entries are read as are announced' % fn, counted(f, e, 'out(%s)' % op), e.loc, '')
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('broadcastSend', 'broadcastReceive', 'send', 'receive', 'broadcast', 'buildCommunicationMap')
    ctx.spec('distributions', ctx.fn(M + 'broadcast', policy=keep), """
        call m2n::broadcastSend(arg0, IntraComm::getCommunication()) | {IntraComm::isPrimary()}
        call m2n::broadcastReceive(arg0, 0, IntraComm::getCommunication()) | {IntraComm::isSecondary()}
    """)
    MAP = 'm2n::buildCommunicationMap(_mesh._vertexDistribution, out(m2n::broadcast), IntraComm::getRank())'
    NONE, SOME = '{(size(%s) == 0)}' % MAP, '!{(size(%s) == 0)}' % MAP
    for side in ('accept', 'request'):
        F = ctx.fn(P2P + side + 'Connection', policy=keep)
        TMP = {'accept': 'Communication::acceptConnection(NEW, arg0, arg1, cat("TMP-PRIMARYCOM-", _mesh._name), IntraComm::getRank(), 0)',
               'request': 'Communication::requestConnection(NEW, arg0, arg1, cat("TMP-PRIMARYCOM-", _mesh._name), 0, 1)'}[side]
        CON = {'accept': 'Communication::acceptConnectionAsServer(NEW, arg0, arg1, _mesh._name, IntraComm::getRank(), size(MAP))',
               'request': 'Communication::requestConnectionAsClient(NEW, arg0, arg1, _mesh._name, *, IntraComm::getRank())'}[side]
        ctx.spec('distributions', F, ("""
            T) call """ + TMP + """ | !SEC
            S) call m2n::send(_mesh._vertexDistribution, 0, NEW) | !SEC
            R) call m2n::receive(*, 0, NEW) | !SEC
            B) call m2n::broadcast(_mesh._vertexDistribution)
            ST) call Mesh::setVertexDistribution(_mesh, *) | SEC
            BO1) call m2n::broadcast(out(m2n::receive)) | !SEC
            BO2) call m2n::broadcast(VertexDistribution()) | SEC
            BO) call m2n::broadcast(out(m2n::receive)) | !SEC || call m2n::broadcast(out(m2n::receive))
            BM) call m2n::buildCommunicationMap(*, *, IntraComm::getRank())
            NEWC) when store PointToPointCommunication::_communication(*) = NEW | SOME
            CON) call """ + CON + """ | SOME
            PUT) for MAP: call vector::push_back(_mappings, init(*, (elem(MAP).first, VAL, PtrRequest(), *))) | SOME
            when store PointToPointCommunication::_isConnected(_isConnected) = 1 | NONE || when store PointToPointCommunication::_isConnected(_isConnected) = 1 | SOME
            final _isConnected = 1
            order T < """ + ('S < R' if side == 'accept' else 'R < S') + """ < BO < BM
            order B < ST
            order B < BM
            order BM < CON < PUT
        """ + ("for MAP: call set::emplace(*, elem(MAP).first) | SOME\n" if side == 'request' else '')).replace('VAL', 'idx($[MAP], elem(MAP).first)' if side == 'accept' else 'elem(MAP).second')
            .replace('SOME', SOME).replace('NONE', NONE).replace('NEW,', NEW + ',').replace('NEW)', NEW + ')').replace('= NEW', '= ' + NEW).replace('SEC', SEC).replace('MAP', MAP))
    T0, TR = 'find(arg0, arg2).second', 'elem(arg1).second'
    OVER = '!{(size(%s) == 0)} & !{(size(%s) == 0)} & !{(vector::back(%s) < idx(%s, 0))} & !{(vector::back(%s) < idx(%s, 0))} & {contains(arg0, arg2)}' % (TR, T0, TR, T0, T0, TR)
    ctx.spec('shared vertices', M + 'buildCommunicationMap', """
        returns | *
        for arg1: call utils::set_intersection_indices(begin(T0), begin(T0), end(T0), begin(TR), end(TR), std::back_inserter(*)) | OVER
        for arg1: call map::insert(*, value_type(elem(arg1).first, out(std::back_inserter))) | OVER & !{(size(out(std::back_inserter)) == 0)}
    """.replace('OVER', OVER).replace('T0', T0).replace('TR', TR).replace('returns | *\n', ''))
    fs = [F for F in ctx.funcs('precice::utils::set_intersection_indices') if F.body]
    ctx.need('shared vertices', len(fs), 1)
    for F in fs[:1]:
        intersection(ctx, F)
    # ---- preliminary connections of two-level initialization
    CR = '_mesh._connectedRanks'
    for side in ('accept', 'request'):
        ctx.spec('two-level connections', P2P + side + 'PreConnection', ("""
            NEWC) when store PointToPointCommunication::_communication(*) = NEW | !{(size(CR) == 0)}
            CON) call """ + {'accept': 'Communication::acceptConnectionAsServer(NEW, arg0, arg1, _mesh._name, IntraComm::getRank(), size(CR))',
                                 'request': 'Communication::requestConnectionAsClient(NEW, arg0, arg1, _mesh._name, set(begin(CR), end(CR)), IntraComm::getRank())'}[side] + """ | !{(size(CR) == 0)}
            PUT) for CR: call vector::push_back(_connectionDataVector, init(*, (elem(CR), PtrRequest()))) | !{(size(CR) == 0)}
            final _isConnected = 1
        """).replace('NEW,', NEW + ',').replace('= NEW', '= ' + NEW).replace('CR', CR))
    CD = '_connectionDataVector'
    ctx.spec('two-level connections', P2P + 'completeSecondaryRanksConnection',
             'for CD: call vector::push_back(_mappings, init(*, (elem(CD).remoteRank, idx($[_mesh._communicationMap], elem(CD).remoteRank), elem(CD).request, vector())))'.replace('CD', CD))
    for fn, spec in (('broadcastSend', 'for CD: call Communication::send(_communication, arg0, elem(CD).remoteRank)'),
                     ('broadcastReceiveAll', 'R) for CD: call Communication::receive(_communication, *, elem(CD).remoteRank)\nA) for CD: call vector::push_back(arg0, out(Communication::receive))\norder R < A'),
                     ('broadcastSendMesh', 'for CD: call com::sendMesh(_communication, elem(CD).remoteRank, _mesh)'),
                     ('broadcastReceiveAllMesh', 'for CD: call com::receiveMesh(_communication, elem(CD).remoteRank, _mesh)'),
                     ('scatterAllCommunicationMap', 'for CD: call Communication::sendRange(_communication, idx(arg0, elem(CD).remoteRank), elem(CD).remoteRank)'),
                     ('gatherAllCommunicationMap', 'for CD: store par(idx(arg0, elem(CD).remoteRank)) = Communication::receiveRange(_communication, elem(CD).remoteRank, com::asVector)')):
        ctx.spec('two-level connections', P2P + fn, spec.replace('CD', CD))
    # ---- values
    ctx.spec('values of shared vertices', P2P + 'receive', """
        Z) call std::fill(begin(arg0), end(arg0), 0) | X || for arg0: store par(elem(arg0)) = 0 | X
        R) for _mappings: when call Communication::aReceive(*) | X
        A) for _mappings >> elem(_mappings).indices >> [0, arg1): store par(idx(arg0, arg1*elem(elem(_mappings).indices)+iv)) = idx(arg0, arg1*elem(elem(_mappings).indices)+iv)+idx(elem(_mappings).recvBuffer, arg1*iv1+iv) | X
        order Z < A
    """.replace('X', '!{(size(_mappings) == 0)} & !{(size(arg0) == 0)}'))
    ctx.spec('all connections are closed', P2P + 'closeConnection', """
        when store PointToPointCommunication::_communication(*) = null() | {_isConnected}
        when call vector::clear(_mappings) | {_isConnected}
        when call vector::clear(_connectionDataVector) | {_isConnected}
        final _isConnected = 0 | {_isConnected}
    """)


def counted(f, e, n):
    """the loop of an effect runs n times"""
    L = e.loops[-1]
    if L.kind == 'while':
        for u in L.init:
            if f.n(L.init[u]) == n:
                p = T('phi', L.id, str(u[1]))
                fin = L.fin.get(u)
                if fin is not None and f.n(fin) in ('-1+phi', '-1*1+phi') and f.n.gate(L.cond) in ('phi', '!(phi == 0)', '(0 < phi)'):
                    return True
        return False
    return f.rng(L) == '[0, %s)' % n


def intersection(ctx, F):
    """the positions in the first of two sorted ranges whose elements are also in the second"""
    f = ctx.analyse(F)
    B = f.A.B
    st = [e for e in f.events if e.kind == 'store' and e.loops and 'distance' in str(f.n(e.val))]
    ctx.need('shared vertices', len(st), 1)
    for e in st:
        L = e.loops[-1]
        step = {}
        for u in L.init:
            if L.init[u].k == 'par' and f.n(L.init[u]) in ('arg1', 'arg3'):
                step[f.n(L.init[u])] = (u, T('phi', L.id, str(u[1])))
        ok = len(step) == 2
        ctx.ob('shared vertices', 'both ranges are walked through from their starts', ok, e.loc, '')
        if not ok:
            return
        first, second = step['arg1'], step['arg3']
        f.n.names[str(first[0][1])] = '$A'
        f.n.names[str(second[0][1])] = '$B'
        f.n.reset()
        LT, GT = f.cond('{(at($A) < at($B))}'), f.cond('{(at($B) < at($A))}')
        sane = B.NOT(B.AND(LT, GT))
        end = f.cond(' | '.join('{%s}' % p for p in ('(arg2 == $A)', '($A == arg2)', '(arg4 == $B)', '($B == arg4)') if f.atoms(p)))
        go = B.NOT(end)
        same = lambda g, h: B.AND(sane, B.AND(go, g)) == B.AND(sane, B.AND(go, h))
        ctx.ob('shared vertices', 'stops at the end of one of the ranges', L.cond == go, e.loc, f.n.gate(L.cond))
        ctx.ob('shared vertices', 'notes the position in the first range', f.n(e.val) == 'std::distance(arg0, $A)', e.loc, f.n(e.val))
        ctx.ob('shared vertices', 'notes it exactly for elements of both ranges', same(f.norm_gate(e.g), B.AND(B.NOT(LT), B.NOT(GT))), e.loc, f.n.gate(e.g))
        for what, (u, p), want in (('first', first, B.NOT(GT)), ('second', second, B.NOT(LT))):
            ctx.ob('shared vertices', 'leaves an element of the %s range behind when the other range has passed or reached it' % what, same(advance(B, L.fin.get(u), p), want), e.loc, f.n(L.fin.get(u)))


def advance(B, t, p):
    """condition under which a term is one behind the given one (-1: it is something else somewhere)"""
    if t is None or t == p:
        return 0
    if t.k == 'ite':
        return B.ite(t.a[1], advance(B, t.a[2], p), advance(B, t.a[3], p))
    return 1 if str(t) == '1+%s' % p else 0


def binding(ctx):
    """accepting and requesting participant use the pair of names in the same order for everything"""
    B = M + 'BoundM2N::'
    RQ, TWO = '{isRequesting}', '{m2n._useTwoLevelInit}'
    ctx.spec('both sides use the same names', B + 'prepareEstablishment', 'call M2N::prepareEstablishment(m2n, localName, remoteName) | !%s' % RQ)
    ctx.spec('both sides use the same names', B + 'connectPrimaryRanks', """
        call M2N::requestPrimaryRankConnection(m2n, remoteName, localName, arg0) | RQ
        call M2N::acceptPrimaryRankConnection(m2n, localName, remoteName, arg0) | !RQ
    """.replace('RQ', RQ))
    ctx.spec('both sides use the same names', B + 'connectSecondaryRanks', """
        call M2N::completeSecondaryRanksConnection(m2n) | TWO
        call M2N::requestSecondaryRanksConnection(m2n, remoteName, localName) | RQ & !TWO
        call M2N::acceptSecondaryRanksConnection(m2n, localName, remoteName) | !RQ & !TWO
    """.replace('RQ', RQ).replace('TWO', TWO))
    ctx.spec('both sides use the same names', B + 'preConnectSecondaryRanks', """
        call M2N::requestSecondaryRanksPreConnection(m2n, remoteName, localName) | RQ & TWO
        call M2N::acceptSecondaryRanksPreConnection(m2n, localName, remoteName) | !RQ & TWO
    """.replace('RQ', RQ).replace('TWO', TWO))
    ctx.spec('both sides use the same names', B + 'cleanupEstablishment', """
        C) call M2N::cleanupEstablishment(m2n, localName, remoteName) | !RQ & !SEC
        R) for IntraComm::allSecondaryRanks(): call Communication::receive(IntraComm::getCommunication(), *, elem(IntraComm::allSecondaryRanks())) | !RQ & {IntraComm::isPrimary()}
        S) call Communication::send(IntraComm::getCommunication(), *, 0) | !RQ & SEC
        order R < C
    """.replace('RQ', RQ).replace('SEC', SEC))
    ctx.spec('both sides use the same names', M + 'M2N::prepareEstablishment', 'call Communication::prepareEstablishment(_interComm, arg0, arg1)')
    ctx.spec('both sides use the same names', M + 'M2N::cleanupEstablishment', 'call Communication::cleanupEstablishment(_interComm, arg0, arg1)')


def named(f, g):
    """a condition over the texts of its atoms"""
    B = f.A.B
    return B.mapatoms(g, lambda a: B.atom(T('str', f.n.atom(a))))


def configuration(ctx):
    """one connection per pair of participants, found whichever way round they are named"""
    N = M + 'M2NConfiguration::'
    ANY = '{any(_m2ns: *)}'
    for fn, spec, a0, a1 in (('getM2N', 'for _m2ns BREAKS: ret return() = elem(_m2ns).m2n | PAIR\nthrows | !ANY', 'arg0', 'arg1'),
                             ('isM2NConfigured', 'ret return() = <any(_m2ns: *)>', 'arg0', 'arg1'), ('checkDuplicates', 'throws | ANY', 'arg0', 'arg1')):
        f = ctx.fn(N + fn)
        P = '({(A0 == elem(_m2ns).acceptor)} & {(A1 == elem(_m2ns).connector)} | {(A0 == elem(_m2ns).connector)} & {(A1 == elem(_m2ns).acceptor)})'.replace('A0', a0).replace('A1', a1)
        ctx.spec('configuration', f, spec.replace('ANY', ANY).replace('PAIR', P))
        want = f.cond(P)
        n = 0
        for a in list(f.A.B.atoms):
            if isinstance(a, T) and a.k == 'any' and isinstance(a.a[2], int):
                n += 1
                ctx.ob('configuration', '%s looks for the pair of names either way round' % fn, named(f, a.a[2]) == named(f, want), f.F.loc if hasattr(f.F, 'loc') else f.F.file, f.n.gate(a.a[2]))
        ctx.need('configuration', n, 1)
    # ---- what a configured connection is made of
    K = '{(TAG == arg1._namespace)}'
    f = ctx.fn(N + 'xmlTagCallback')
    at = lambda k, n: 'XMLTag::get%sAttributeValue(arg1, %s, std::nullopt)' % (k, n)
    ctx.spec('configuration', f, """
        G) only new m2n::GatherScatterComFactory(*newCommunication*) | T
        P) only new m2n::PointToPointComFactory(*) | T
        M) only new m2n::M2N(*, *new(*GatherScatterComFactory*new(*PointToPointComFactory*, 0, %s) | T
        E) only call vector::emplace_back(_m2ns, init(ConfiguredM2N, (*, %s, %s))) | T
    """.replace(' | T', '') % (at('Boolean', 'ATTR_USE_TWO_LEVEL_INIT'), at('String', '"acceptor"'), at('String', '"connector"')))
    gs = f.cond('{%s}' % at('Boolean', 'ATTR_ENFORCE_GATHER_SCATTER'))
    n = 0
    for e in f.events:
        if e.kind == 'new' and ('GatherScatterComFactory' in e.q or 'PointToPointComFactory' in e.q):
            n += 1
            want = gs if 'GatherScatter' in e.q else f.A.B.NOT(gs)
            ctx.ob('configuration', 'gather-scatter is used exactly if enforced (%s)' % e.q.split('::')[-1], f.A.B.implies(e.g, want), e.loc, f.n.gate(e.g))
    ctx.need('configuration', n, 2)
    for cls, tag in (('SocketCommunicationFactory', 'sockets'), ('MPIPortsCommunicationFactory', 'mpi-multiple-ports'), ('MPISinglePortsCommunicationFactory', 'mpi')):
        ctx.spec('configuration', f, '[configuration | within %s & {(arg1._name == "%s")}]\nonly new com::%s(*%s)' % (K, tag, cls, at('String', 'ATTR_EXCHANGE_DIRECTORY')))
    EL = 'elem(_m2nConfiguration._m2ns)'
    PS = '_participantConfiguration._participants'
    ACC, CON = '{(arg0 == %s.acceptor)}' % EL, '{(arg0 == %s.connector)}' % EL
    HERE = '(%s & {(%s.connector == elem(%s)._name)} | !%s & %s & {(%s.acceptor == elem(%s)._name)})' % (ACC, EL, PS, ACC, CON, EL, PS)
    ctx.spec('one participant requests, the other accepts', 'precice::config::Configuration::getBoundM2NsFor', """
        for MS >> PS: store BoundM2N::m2n(*) = EL.m2n | HERE
        for MS >> PS: store BoundM2N::localName(*) = arg0 | HERE
        for MS >> PS: store BoundM2N::remoteName(*) = EL.connector | ACC & {(EL.connector == elem(PS)._name)}
        for MS >> PS: store BoundM2N::remoteName(*) = EL.acceptor | !ACC & CON & {(EL.acceptor == elem(PS)._name)}
        for MS >> PS: store BoundM2N::isRequesting(*) = <(arg0 == EL.acceptor)> | HERE
        for MS >> PS: call BoundM2N::operator=(idx(*, [(arg0 == EL.acceptor) ? EL.connector : EL.acceptor]), *) | HERE
    """.replace('HERE', HERE).replace('ACC', ACC).replace('CON', CON).replace('EL', EL).replace('MS', '_m2nConfiguration._m2ns').replace('PS', PS))
    PART = 'ParticipantConfiguration::getParticipant(_participantConfiguration, arg0)'
    PM, RM = PART + '._providedMeshContexts', PART + '._receivedMeshContexts'
    RC = 'elem(elem(%s)._receivedMeshContexts)' % PS
    MATCH = '{(arg0 == %s.receiveMeshFrom)} & {(elem(%s).mesh._name == %s.mesh._name)}' % (RC, PM, RC)
    GIVE = 'M2NConfiguration::getM2N(_m2nConfiguration, elem(%s)._name, arg0)' % PS
    TAKE = 'M2NConfiguration::getM2N(_m2nConfiguration, arg0, elem(%s).receiveMeshFrom)' % RM
    ctx.spec('every exchanged mesh has a connection', 'precice::config::Configuration::configurePartitionsFor', """
        P) for PM: when store ProvidedMeshContext::partition(elem(PM).partition) = new(*ProvidedPartition, (elem(PM).mesh), *)
        D) for PM >> PS >> elem(PS)._receivedMeshContexts: call M2N::createDistributedCommunication(GIVE, elem(PM).mesh) | MATCH
        A) for PM >> PS >> elem(PS)._receivedMeshContexts: call Partition::addM2N(*ProvidedPartition*, GIVE) | MATCH
        Q) for PM >> PS >> elem(PS)._receivedMeshContexts: store MeshContext::meshRequirement(elem(PM).meshRequirement) = RC.meshRequirement | MATCH & {(elem(PM).meshRequirement < RC.meshRequirement)}
        R) for RM: when store ReceivedMeshContext::partition(elem(RM).partition) = new(*ReceivedPartition, (elem(RM).mesh, elem(RM).geoFilter, elem(RM).safetyFactor, elem(RM).allowDirectAccess), *)
        for RM: call M2N::createDistributedCommunication(TAKE, elem(RM).mesh)
        for RM: call Partition::addM2N(*ReceivedPartition*, TAKE)
        for RM >> elem(RM).fromMappingContexts: call Partition::addFromMapping(*ReceivedPartition*, elem(elem(RM).fromMappingContexts).mapping)
        for RM >> elem(RM).toMappingContexts: call Partition::addToMapping(*ReceivedPartition*, elem(elem(RM).toMappingContexts).mapping)
    """.replace('GIVE', GIVE).replace('TAKE', TAKE).replace('MATCH', MATCH).replace('RC.', RC + '.').replace('PM', PM).replace('RM', RM).replace('PS', PS))
    # ---- closing
    B = 'elem(_m2ns).second'
    UP = '{%s.m2n._isPrimaryRankConnected}' % B
    SYNC = '!%s & {_waitInFinalize} & %s' % (SEC, UP)
    ctx.spec('all connections are closed', 'precice::impl::ParticipantImpl::closeCommunicationChannels', """
        D) for _m2ns: call M2N::closeDistributedConnections(B.m2n) | UP & {(arg0 == CloseChannels::Distributed)}
        A) for _m2ns: call M2N::closeConnection(B.m2n) | UP & !{(arg0 == CloseChannels::Distributed)}
        C) for _m2ns: call Communication::send(B.m2n._interComm, *, 0) | SYNC
        order C < D
        order C < A
        [all connections are closed | within {B.isRequesting}]
        S) for _m2ns: only call Communication::send(B.m2n._interComm, *, 0) | SYNC
        R) for _m2ns: only call Communication::receive(B.m2n._interComm, *, 0) | SYNC
        order S < R
        [all connections are closed | within !{B.isRequesting}]
        R2) for _m2ns: only call Communication::receive(B.m2n._interComm, *, 0) | SYNC
        S2) for _m2ns: only call Communication::send(B.m2n._interComm, *, 0) | SYNC
        order R2 < S2
    """.replace('SYNC', SYNC).replace('UP', UP).replace('B.', B + '.'))
