"""Partitioning of meshes: global numbering, gathering, distribution, filtering, ownership and the communication maps
which result from them. The gated path summaries of both kinds of partitions (every rank role, both initialisation modes,
all filter modes) and of the bounding boxes and mesh filters they rest on are compared with this protocol."""
from check import *
from api import *

MIN = 120
PP, RP, ME = 'precice::partition::ProvidedPartition::', 'precice::partition::ReceivedPartition::', 'precice::mesh::'
PR, SE = '{IntraComm::isPrimary()}', '{IntraComm::isSecondary()}'
TWO = '{idx(_m2ns, 0)._useTwoLevelInit}'
COM = 'IntraComm::getCommunication()'
ASR = 'IntraComm::allSecondaryRanks()'
NV = 'Mesh::nVertices(_mesh)'
RE = 'elem(%s)' % ASR
KEEP = ('prepareBoundingBox', 'filterByBoundingBox', 'createOwnerInformation', 'tagMeshFirstRound', 'tagMeshSecondRound', 'setOwnerInformation', 'isAnyProvidedMeshNonEmpty', 'hasAnyMapping',
        'filterMesh', 'prepare')


def sub(t, **kw):
    for k, v in kw.items():
        t = re.sub(r'\b%s\b' % k, lambda m: v, t)
    return t


def run(ctx):
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in KEEP
    F = lambda n: ctx.fn(n, policy=keep)
    R = lambda t: sub(t, PR=PR, SE=SE, TWO=TWO, COM=COM, ASR=ASR, NV=NV, RE=RE)
    # ---- the participant that provides the mesh numbers its vertices
    numbering(ctx, F, R)
    offsets(ctx, 'vertex offsets', F(RP + 'compute'), R, '{IntraComm::isParallel()} & SE', '{IntraComm::isParallel()} & !SE')
    gather(ctx, F, R)
    boxes(ctx, F, R)
    filtering(ctx, F, R)
    compute(ctx, F, R)
    owner(ctx, F, R)
    geometry(ctx, F, R)


def numbering(ctx, F, R):
    f = F(PP + 'prepare')
    ctx.spec('global numbering', f, R("""
        for [0, NV): call Vertex::setGlobalIndex(Mesh::vertex(_mesh, iv), iv) | !SE
        for [0, NV): when call Vertex::setGlobalIndex(Mesh::vertex(_mesh, iv), iv) | !SE
        SND) call Communication::send(COM, NV, 0) | SE
        RCV) call Communication::receive(COM, *, 0) | SE
        bind START = RCV.out0
        for [0, NV): call Vertex::setGlobalIndex(Mesh::vertex(_mesh, iv), $START+iv) | SE || for [0, NV): call Vertex::setGlobalIndex(Mesh::vertex(_mesh, iv), iv+$START) | SE
        for _mesh._vertices: call Vertex::setOwner(elem(_mesh._vertices), 1) || for [0, NV): call Vertex::setOwner(Mesh::vertex(_mesh, iv), 1)
        NUM) for ASR: call Communication::receive(COM, *, RE) | PR
        GIVE) for ASR: call Communication::send(COM, *, RE) | PR
        bind TOTAL = GIVE.1
        order NUM < GIVE
        order SND < RCV
        call Mesh::setGlobalNumberOfVertices(_mesh, $TOTAL) | PR || call Mesh::setGlobalNumberOfVertices(_mesh, *back*$TOTAL*) | PR
        call Communication::broadcast(COM, $TOTAL) | PR || call Communication::broadcast(COM, *back*$TOTAL*) | PR
        B) call Communication::broadcast(COM, -1, 0) | SE
        bind ALL = B.out0
        call Mesh::setGlobalNumberOfVertices(_mesh, $ALL) | SE
        call Mesh::setGlobalNumberOfVertices(_mesh, NV) | !PR & !SE
    """))
    # the start of rank r is the sum of what the ranks before it sent: the count handed out is the one before this rank's own is added
    n = 0
    for e in f.call('Communication::send'):
        if not e.loops:
            continue
        t = e.args[1]
        init, fin = f.carried(e, t)
        n += 1
        if match(R('idx(*, -1*1+RE)'), f.n(t)):        # or the offset behind the rank before
            continue
        ctx.ob('global numbering', 'the running count starts at the vertices of the primary rank', init is not None and match(NV, f.n(init)), e.loc, '' if init is None else f.n(init))
        ctx.ob('global numbering', 'the running count grows by the vertices of every rank', fin is not None and fin.k == 'poly' and 'Communication::receive' in f.n(fin) and re.sub(r'\$\w+|phi', 'phi', f.n(fin)) in ('out(Communication::receive)+phi', 'phi+out(Communication::receive)'), e.loc, '' if fin is None else f.n(fin))
    ctx.need('global numbering', n, 1)
    offsets(ctx, 'vertex offsets', f, R, 'SE', 'PR')
    D = '{any(_m2ns: !elem(_m2ns)._useTwoLevelInit)}'
    ctx.spec('vertex distribution', f, R("""
        I) call vector::resize(*, *) | PR & D || call std::iota(*, *, 0) | PR & D
        for ASR >> [idx(*, *RE), idx(*, RE)): call vector::push_back(*idx(*, RE), iv) | PR & D || for ASR >> [idx(*, *RE), idx(*, RE)): call vector::emplace_back(*idx(*, RE), iv) | PR & D || for ASR: call std::iota(*idx(*, RE)*, *idx(*, RE)*, idx(*, -1*1+RE)) | PR & D
        call std::iota(*, *, 0) | PR & D || for *: store *0)*iv* = iv | PR & D
        for [0, NV): call vector::push_back(*idx(*, 0), iv) | !PR & !SE || for [0, NV): call vector::emplace_back(*idx(*, 0), iv) | !PR & !SE
        call Mesh::setVertexOffsets(_mesh, *init(*(NV))*) | !PR & !SE
        call Mesh::setVertexDistribution(_mesh, *) | (PR & D | !PR & !SE)
        when call Mesh::setVertexDistribution(_mesh, *) | (PR & D | !PR & !SE)
    """.replace(' D', ' ' + D)))


def offsets(ctx, rule, f, R, S, P):
    """offsets[r] = number of vertices on ranks 0..r"""
    ctx.spec(rule, f, R("""
        call Communication::send(COM, NV, 0) | S
        B) call Communication::broadcast(COM, *VertexOffsets*, 0) | S
        bind OFFSETS = B.out0
        call Mesh::setVertexOffsets(_mesh, $OFFSETS) | S
        N) for ASR: call Communication::receive(COM, *, RE) | P
        bind N = N.out0
        O) for ASR: store * = idx(*, -1*1+RE)+$N | P || for ASR: store * = $N+idx(*, -1*1+RE) | P
        bind OWNOFFSETS = O.0
        store lv(idx($OWNOFFSETS, 0)) = NV | P
        for ASR: store lv(idx($OWNOFFSETS, RE)) = *idx($OWNOFFSETS, -1*1+RE)* | P
        call Mesh::setVertexOffsets(_mesh, $OWNOFFSETS) | P
        call Communication::broadcast(COM, $OWNOFFSETS) | P
    """.replace('| S', '| ' + S).replace('| P', '| ' + P)))


def gather(ctx, F, R):
    E2 = '{elem(_m2ns)._useTwoLevelInit}'
    NE = '!{(size(_m2ns) == 0)}'
    f = F(PP + 'communicate')
    ctx.spec('mesh provided', f, R("""
        P) call ProvidedPartition::prepare(this())
        for _m2ns: call Communication::send(*_m2ns*._interComm, _mesh._globalNumberOfVertices, 0) | NE & PR & E2
        MI) for _m2ns: call M2N::broadcastSend(*_m2ns*, -1*Mesh::nVertices(_mesh)+idx(_mesh._vertexOffsets, IntraComm::getRank()), _mesh) | NE & E2
        MA) for _m2ns: call M2N::broadcastSend(*_m2ns*, -1*1+idx(_mesh._vertexOffsets, IntraComm::getRank()), _mesh) | NE & E2
        ME) for _m2ns: call M2N::broadcastSendMesh(*_m2ns*, _mesh) | NE & E2
        order MI < MA < ME
        A) for _m2ns: only call Mesh::addMesh(*, _mesh) | NE & !E2 & !SE
        bind WHOLE = A.0
        R) for _m2ns >> ASR: only call com::receiveMesh(COM, RE, $WHOLE) | NE & !E2 & PR
        S) for _m2ns: only call com::sendMesh(COM, 0, _mesh) | NE & !E2 & SE
        T) for _m2ns: call com::sendMesh(elem(_m2ns)._interComm, 0, $WHOLE) | NE & !E2 & !SE
        order P < A < R < T
    """.replace('NE', NE).replace('E2', E2)))
    # gathered exactly once: for the first receiver that needs it
    for e in f.call('Mesh::addMesh'):
        L = e.loops[-1]
        ok = any(f.n(t) in ('0', 'false') and L.fin.get(u) is not None and '_useTwoLevelInit' in f.n(L.fin[u]) for u, t in L.init.items())
        ctx.ob('mesh provided', 'the mesh is gathered once', ok and '!phi' in f.n.gate(e.g), e.loc, f.n.gate(e.g))
    ctx.spec('mesh received', F(RP + 'communicate'), R("""
        N) call Communication::receive(idx(_m2ns, 0)._interComm, *, 0) | PR & TWO
        bind NUM = N.out0
        call Mesh::setGlobalNumberOfVertices(_mesh, $NUM) | PR & TWO
        MI) call M2N::broadcastReceiveAll(idx(_m2ns, 0), _remoteMinGlobalVertexIDs, _mesh) | TWO
        MA) call M2N::broadcastReceiveAll(idx(_m2ns, 0), _remoteMaxGlobalVertexIDs, _mesh) | TWO
        ME) call M2N::broadcastReceiveAllMesh(idx(_m2ns, 0), _mesh) | TWO
        order MI < MA < ME
        M) call com::receiveMesh(idx(_m2ns, 0)._interComm, 0, _mesh) | !TWO & !SE
        S) call Mesh::setGlobalNumberOfVertices(_mesh, NV) | !TWO & !SE
        B) call Communication::broadcast(COM, _mesh._globalNumberOfVertices) | PR
        order M < S < B
        C) call Communication::broadcast(COM, -1, 0) | SE
        bind ALL = C.out0
        call Mesh::setGlobalNumberOfVertices(_mesh, $ALL) | SE
    """))
    ctx.spec('communication maps', F(PP + 'compute'), """
        for _m2ns: call M2N::gatherAllCommunicationMap(elem(_m2ns), _mesh._communicationMap, _mesh) | E2
    """.replace('E2', E2))


def boxes(ctx, F, R):
    G = '!{(size(_m2ns) == 0)} & TWO'
    f = F(PP + 'compareBoundingBoxes')
    ctx.spec('bounding boxes provided', f, R("""
        CL) call Mesh::clearPartitioning(_mesh)
        call com::sendBoundingBox(COM, 0, _mesh._boundingBox) | G & SE
        OWN) call map::emplace(*, 0, _mesh._boundingBox) | G & !SE || store *0)* = _mesh._boundingBox | G & !SE
        REC) for ASR: call com::receiveBoundingBox(COM, RE, idx(*, RE)) | G & !SE
        bind BOXES = REC.2
        NP) call Communication::send(idx(_m2ns, 0)._interComm, IntraComm::getSize(), 0) | G & !SE
        MAP) call com::sendBoundingBoxMap(idx(_m2ns, 0)._interComm, 0, $BOXES) | G & !SE
        order CL < OWN < REC < NP < MAP
        LIST) call Communication::receiveRange(idx(_m2ns, 0)._interComm, 0, *) | G & PR
        CON) call com::receiveConnectionMap(idx(_m2ns, 0)._interComm, 0, *) | G & PR & !{(size(Communication::receiveRange*) == 0)}
        bind FEEDBACK = CON.2
        BR) call Communication::broadcast(COM, Communication::receiveRange*) | G & PR
        BC) call com::broadcastSendConnectionMap(COM, *) | G & PR & !{(size(Communication::receiveRange*) == 0)}
        order MAP < LIST < CON < BR < BC
        SR) call Communication::broadcast(COM, *, 0) | G & !PR
        bind REMOTE = SR.out0
        SC) call com::broadcastReceiveConnectionMap(COM, *) | G & !PR & !{(size($REMOTE) == 0)}
        order SR < SC
        for Communication::receiveRange*: store *elem(Communication::receiveRange*))* = * | G & PR || for Communication::receiveRange*: call map::*emplace(*, elem(Communication::receiveRange*)*) | G & PR
        for $REMOTE: store *elem($REMOTE))* = * | G & !PR & !{(size($REMOTE) == 0)} || for $REMOTE: call map::*emplace(*, elem($REMOTE)*) | G & !PR & !{(size($REMOTE) == 0)}
        for * >> elem(*).second: only call vector::push_back(*, elem(*).first) | G & {(IntraComm::getRank() == elem(elem(*).second))} || for * >> elem(*).second: only call vector::emplace_back(*, elem(*).first) | G & {(IntraComm::getRank() == elem(elem(*).second))}
        K) call Mesh::setConnectedRanks(_mesh, *) | G
        when call Mesh::setConnectedRanks(_mesh, *) | G
        order BC < K
        order SC < K
    """.replace('G &', G + ' &').replace('| G', '| ' + G)))
    f = F(RP + 'compareBoundingBoxes')
    ctx.spec('bounding boxes received', f, R("""
        call Mesh::clear(_mesh)
        call Mesh::clearPartitioning(_mesh)
        RESET) store ReceivedPartition::_boundingBoxPrepared(*) = 0
        call vector::clear(_remoteMinGlobalVertexIDs)
        call vector::clear(_remoteMaxGlobalVertexIDs)
        N) call Communication::receive(idx(_m2ns, 0)._interComm, *, 0) | TWO & PR
        NB) call Communication::broadcast(COM, out(Communication::receive)) | TWO & PR
        call Communication::broadcast(COM, -1, 0) | TWO & !PR
        BB) call com::receiveBoundingBoxMap(idx(_m2ns, 0)._interComm, 0, *) | TWO & PR
        BS) call com::broadcastSendBoundingBoxMap(COM, out(com::receiveBoundingBoxMap)) | TWO & PR
        BR) call com::broadcastReceiveBoundingBoxMap(COM, *) | TWO & !PR
        PREP) call ReceivedPartition::prepareBoundingBox(this()) | TWO
        order RESET < PREP
        order N < NB < BB < BS
        for [0, *out(Communication::receive)*): call map::*emplace(*, iv*) | TWO || for [0, *out(Communication::receive)*): store *iv)* = * | TWO
        for *: call vector::push_back(*, elem(*).first) | TWO & {BoundingBox::overlapping(_bb, elem(*).second)} || for *: call vector::emplace_back(*, elem(*).first) | TWO & {BoundingBox::overlapping(_bb, elem(*).second)}
        for *: when call vector::push_back(*, elem(*).first) | TWO & {BoundingBox::overlapping(_bb, elem(*).second)} || for *: when call vector::emplace_back(*, elem(*).first) | TWO & {BoundingBox::overlapping(_bb, elem(*).second)}
        call Mesh::setConnectedRanks(_mesh, lout(vector(), phi)) | TWO
        when call Mesh::setConnectedRanks(_mesh, lout(vector(), phi)) | TWO
        for ASR: call Communication::receiveRange(COM, RE, *) | TWO & PR
        OR) for ASR: call map::*emplace(*, RE, Communication::receiveRange(COM, RE, *)) | TWO & PR & !{(size(Communication::receiveRange*) == 0)} || for ASR: store * = Communication::receiveRange(COM, RE, *) | TWO & PR & !{(size(Communication::receiveRange*) == 0)}
        LR) for ASR: call vector::*_back(*, RE) | TWO & PR & !{(size(Communication::receiveRange*) == 0)}
        L0) call vector::*_back(*, 0) | TWO & PR & !{(size(lout(vector(), phi)) == 0)}
        C0) call map::*emplace(*, 0, lout(vector(), phi)) | TWO & PR & !{(size(lout(vector(), phi)) == 0)} || store *0)* = lout(vector(), phi) | TWO & PR & !{(size(lout(vector(), phi)) == 0)}
        bind CONN = OR.0
        bind LIST = LR.0
        SL) call Communication::sendRange(idx(_m2ns, 0)._interComm, $LIST, 0) | TWO & PR
        SC) call com::sendConnectionMap(idx(_m2ns, 0)._interComm, 0, $CONN) | TWO & PR & !{(size($CONN) == 0)}
        order BS < SL < SC
        call Communication::sendRange(COM, lout(vector(), phi), 0) | TWO & !PR
        throws | TWO & PR & {(size($CONN) == 0)}
    """))
    A = '!{_boundingBoxPrepared}'
    JIT = '({any(_fromMappings: Mapping::isJustInTimeMapping(elem(_fromMappings)))} | {any(_toMappings: Mapping::isJustInTimeMapping(elem(_toMappings)))})'
    ctx.spec('region of interest', F(RP + 'prepareBoundingBox'), """
        Z) call BoundingBox::operator=(_bb, BoundingBox(_dimensions)) | A
        SF) for _fromMappings: call BoundingBox::scaleBy(elem(_fromMappings)._output._boundingBox, _safetyFactor) | A
        F) for _fromMappings: call BoundingBox::expandBy(_bb, elem(_fromMappings)._output._boundingBox) | A
        ST) for _toMappings: call BoundingBox::scaleBy(elem(_toMappings)._input._boundingBox, _safetyFactor) | A
        T) for _toMappings: call BoundingBox::expandBy(_bb, elem(_toMappings)._input._boundingBox) | A
        SD) call BoundingBox::scaleBy(_mesh._boundingBox, _safetyFactor) | A & {_allowDirectAccess} & JIT
        D) call BoundingBox::expandBy(_bb, _mesh._boundingBox) | A & {_allowDirectAccess}
        order Z < F
        order Z < T
        order Z < D
        order SF < F
        order ST < T
        order SD < D
    """.replace('JIT', JIT).replace('| A', '| ' + A))
    # no box is scaled in place: the meshes' own boxes stay as they are
    n = 0
    for fn in ctx.funcs(RP + 'prepareBoundingBox'):
        for x in effects.walkx(fn.body, fn.tu):
            if x.get('k') == 'call' and 'd' in x and fn.tu.decls[x['d']].q == ME + 'BoundingBox::scaleBy':
                n += 1
                o = x['o']
                while o and o.get('k') in ('cast', 'paren', 'ice', 'imp'):
                    o = o['a'][0] if 'a' in o else o.get('e')
                d = fn.tu.decls[o['d']] if o and o.get('k') == 'var' else None
                ctx.ob('region of interest', 'a copy of the box is scaled', d is not None and d.k == 'local' and not d.t.endswith('&'), '%s:%s' % (fn.file, x.get('l')), '' if d is None else d.t)
    ctx.need('region of interest', n, 3)


def filtering(ctx, F, R):
    PF, SF = '{(_geometricFilter == ReceivedPartition::ON_PRIMARY_RANK)}', '{(_geometricFilter == ReceivedPartition::ON_SECONDARY_RANKS)}'
    GOOD = '(!PF | !TWO)'
    f = F(RP + 'filterByBoundingBox')
    ctx.spec('filter by bounding box', f, R("""
        P) call ReceivedPartition::prepareBoundingBox(this()) | GOOD
        SB) call com::sendBoundingBox(COM, 0, _bb) | !TWO & PF & SE
        SM) call com::receiveMesh(COM, 0, _mesh) | !TWO & PF & SE
        order P < SB < SM
        RB) for ASR: call com::receiveBoundingBox(COM, RE, *) | !TWO & PF & !SE
        FI) for ASR: call mesh::filterMesh(*, _mesh, lambda{BoundingBox::contains($[BoundingBox(*)], p0)}) | !TWO & PF & !SE
        bind PART = FI.out0
        SE2) for ASR: call com::sendMesh(COM, RE, $PART) | !TWO & PF & !SE
        order RB < FI < SE2
        BR) call com::broadcastReceiveMesh(COM, _mesh) | !TWO & !PF & SE
        BS) call com::broadcastSendMesh(COM, _mesh) | !TWO & !PF & !SE
        OF) call mesh::filterMesh(*, _mesh, lambda{BoundingBox::contains(_bb, p0)}) | GOOD & (PF & !SE | !PF & SF)
        when call mesh::filterMesh(*, _mesh, lambda{BoundingBox::contains(_bb, p0)}) | GOOD & (PF & !SE | !PF & SF)
        CL) call Mesh::clear(_mesh) | GOOD & (PF & !SE | !PF & SF)
        when call Mesh::clear(_mesh) | GOOD & (PF & !SE | !PF & SF)
        AD) call Mesh::addMesh(_mesh, out(mesh::filterMesh)) | GOOD & (PF & !SE | !PF & SF)
        when call Mesh::addMesh(_mesh, out(mesh::filterMesh)) | GOOD & (PF & !SE | !PF & SF)
        order SE2 < CL
        order BR < OF < CL < AD
        order BS < OF
        order P < OF
        throws | PF & TWO | (PF | SF) & {Mesh::empty(_mesh)} & {ReceivedPartition::isAnyProvidedMeshNonEmpty(this())}
    """.replace('SE2', 'SND').replace('GOOD', GOOD).replace('PF', PF).replace('SF', SF)))
    ctx.spec('filter by bounding box', F(RP + 'isAnyProvidedMeshNonEmpty'), """
        returns | {any(_fromMappings: !Mesh::empty(elem(_fromMappings)._output))} | {any(_toMappings: !Mesh::empty(elem(_toMappings)._input))}
    """)
    ctx.spec('filter by bounding box', F(RP + 'hasAnyMapping'), 'returns | !{(size(_fromMappings) == 0)} | !{(size(_toMappings) == 0)}')


def compute(ctx, F, R):
    PAR = '{IntraComm::isParallel()}'
    f = F(RP + 'compute')
    I = 'Mesh::vertex(_mesh, %s)._globalIndex'
    IN = '!{(*_globalIndex < idx(_remoteMinGlobalVertexIDs, *))} & !{(idx(_remoteMaxGlobalVertexIDs, *) < *_globalIndex)}'
    ctx.spec('partition steps', f, sub(R("""
        FI) call ReceivedPartition::filterByBoundingBox(this()) | PAR & NOERR
        T1) call ReceivedPartition::tagMeshFirstRound(this()) | PAR & NOERR
        OW) call ReceivedPartition::createOwnerInformation(this()) | PAR & NOERR
        T2) call ReceivedPartition::tagMeshSecondRound(this()) | PAR & NOERR
        ME) call mesh::filterMesh(*, _mesh, lambda{p0._tagged}) | PAR & NOERR
        CL) call Mesh::clear(_mesh) | PAR & NOERR
        AD) call Mesh::addMesh(_mesh, out(mesh::filterMesh)) | PAR & NOERR
        order FI < T1 < OW < T2 < ME < CL < AD
        [serial participant]
        for _mesh._vertices: call Vertex::setOwner(elem(_mesh._vertices), 1) | !PAR & NOSERR
        for _mesh._vertices: call vector::*_back(*idx(*, 0), iv) | !PAR & NOSERR || for [0, *): call vector::*_back(*idx(*, 0), iv) | !PAR & NOSERR
        call Mesh::setVertexDistribution(_mesh, *) | !PAR & NOSERR | PAR & NOERR & !TWO & !SE
        call Mesh::setVertexOffsets(_mesh, *) | !PAR & NOSERR | PAR & NOERR
        P) call ReceivedPartition::prepareBoundingBox(this()) | !PAR & {_allowDirectAccess}
        throws | PAR & ERR | !PAR & SERR
        [communication maps]
        MO) for [0, NV) >> _mesh._connectedRanks: call vector::*_back(idx(*, elem(_mesh._connectedRanks)), -1*idx(_remoteMinGlobalVertexIDs, iv)+GI1) | PAR & NOERR & TWO & IN
        bind REMOTE = MO.0
        ML) for [0, NV) >> _mesh._connectedRanks: call vector::*_back(idx(_mesh._communicationMap, elem(_mesh._connectedRanks)), iv1) | PAR & NOERR & TWO & IN
        SC) call M2N::scatterAllCommunicationMap(idx(_m2ns, 0), $REMOTE, _mesh) | PAR & NOERR & TWO
        order AD < MO < SC
        order AD < ML
        [vertex distribution]
        SI) for [0, NV): store * = GI | PAR & NOERR & !TWO
        for [0, NV): when store * = GI | PAR & NOERR & !TWO
        order AD < SI
        S) call Communication::sendRange(COM, *GI*, 0) | PAR & NOERR & !TWO & SE
        R) for ASR: call Communication::receiveRange(COM, RE, *) | PAR & NOERR & !TWO & !SE
        O) for ASR: store * = Communication::receiveRange(COM, RE, *) | PAR & NOERR & !TWO & !SE
        bind DIST = O.0
        for ASR: store *idx($DIST, RE)* = Communication::receiveRange(COM, RE, *) | PAR & NOERR & !TWO & !SE
        store *idx($DIST, 0)* = *GI* | PAR & NOERR & !TWO & !SE
        call Mesh::setVertexDistribution(_mesh, $DIST) | PAR & NOERR & !TWO & !SE
    """), PAR=PAR, IN=IN, GI1=I % 'iv1', GI=I % 'iv', NOSERR='(!{_allowDirectAccess} | !{BoundingBox::empty(_bb)})', SERR='{_allowDirectAccess} & {BoundingBox::empty(_bb)}',
        NOERR='({_allowDirectAccess} | SE | {ReceivedPartition::hasAnyMapping(this())})', ERR='!{_allowDirectAccess} & !{IntraComm::isSecondary()} & !{ReceivedPartition::hasAnyMapping(this())}').replace('SE |', SE + ' |'))
    ctx.spec('tagging', F(RP + 'tagMeshFirstRound'), """
        for _mesh._vertices: call Vertex::tag(elem(_mesh._vertices)) | {BoundingBox::contains(_mesh._boundingBox, elem(_mesh._vertices))} & {_allowDirectAccess}
        for _fromMappings: call Mapping::tagMeshFirstRound(elem(_fromMappings))
        for _toMappings: call Mapping::tagMeshFirstRound(elem(_toMappings))
    """)
    ctx.spec('tagging', F(RP + 'tagMeshSecondRound'), """
        for _fromMappings: call Mapping::tagMeshSecondRound(elem(_fromMappings))
        for _toMappings: call Mapping::tagMeshSecondRound(elem(_toMappings))
    """)


def owner(ctx, F, R):
    f = F(RP + 'createOwnerInformation')
    V = 'Mesh::vertex(_mesh, iv)'
    t = sub(R("""
        [ownership, two-level | within TWO]
        for [0, IntraComm::getSize()): call map::*emplace(*, iv, *) | TWO || for [0, IntraComm::getSize()): store *iv)* = * | TWO
        RB) for [1, IntraComm::getSize()): call com::receiveBoundingBox(COM, iv, idx(*, iv)) | TWO & PR || for ASR: call com::receiveBoundingBox(COM, RE, idx(*, RE)) | TWO & PR
        bind BOXES = RB.2
        OWN) call BoundingBox::operator=(idx($BOXES, 0), _bb) | TWO & PR
        BS) call com::broadcastSendBoundingBoxMap(COM, $BOXES) | TWO & PR
        order OWN < BS
        order RB < BS
        SB) call com::sendBoundingBox(COM, 0, _bb) | TWO & !PR & SE
        BR) call com::broadcastReceiveBoundingBoxMap(COM, *) | TWO & !PR & SE
        order SB < BR
        ER) call map::erase(*, IntraComm::getRank()) | TWO
        NB) for *: call map::*emplace(*, elem(*).first, elem(*).second) | TWO & {BoundingBox::overlapping(_bb, elem(*).second)} || for *: call map::insert*(*, elem(*)) | TWO & {BoundingBox::overlapping(_bb, elem(*).second)}
        bind NEAR = NB.0
        order BS < ER < NB
        order BR < ER
        IDS) for [0, NV): store * = VERTEX._globalIndex | TWO
        bind IDS = IDS.0
        SH) for [0, NV) >> $NEAR: call vector::*_back(*idx(*, elem($NEAR).first), idx($IDS, iv1)) | TWO & {VERTEX._tagged} & {BoundingBox::contains(elem($NEAR).second, VERTEX)}
        bind GIVE = SH.0
        ENT) for $NEAR: store *idx($GIVE, elem($NEAR).first)* = vector() | TWO || for $NEAR: call map::*emplace*($GIVE, elem($NEAR).first*) | TWO || for $NEAR: call map::insert*($GIVE, *elem($NEAR).first*) | TWO
        order ENT < SH
        SG) for [0, NV): call vector::*_back(*, idx($IDS, iv)) | TWO & {VERTEX._tagged} & SHARED
        SL) for [0, NV): call vector::*_back(*, iv) | TWO & {VERTEX._tagged} & SHARED
        bind SHAREDIDS = SG.0
        bind SHAREDPOS = SL.0
        UT) for [0, NV): store * = 0 | TWO & !{VERTEX._tagged}
        bind TAGS = UT.0
        AR) for $NEAR: call Communication::aReceive(COM, idx(*, elem($NEAR).first), elem($NEAR).first) | TWO
        bind COUNTS = AR.1
        SN) for $NEAR: call Communication::send(COM, *, elem($NEAR).first) | TWO
        bind COUNT = SN.1
        AS) for $GIVE: call Communication::aSend(COM, idx(*), elem($GIVE).first) | TWO || for $GIVE: call Communication::aSend(COM, size(*), elem($GIVE).first) | TWO
        AL) for $GIVE: call Communication::aSend(COM, span(elem($GIVE).second), elem($GIVE).first) | TWO & !{(*back* == 0)} || for $GIVE: call Communication::aSend(COM, span(elem($GIVE).second), elem($GIVE).first) | TWO & !{(size(elem($GIVE).second) == 0)}
        RS) for $GIVE: call Communication::receive(COM, 0, elem($GIVE).first) | TWO
        RL) for $GIVE: call Communication::receive(COM, span(*), elem($GIVE).first) | TWO & !{(out(Communication::receive) == 0)}
        order SN < AS
        order AS < RS < RL
        order AS < AL
        GO) for $GIVE: call map::insert(*, pair(elem($GIVE).first, *)) | TWO & !{(out(Communication::receive) == 0)} || for $GIVE: call map::*emplace(*, elem($GIVE).first, *) | TWO & !{(out(Communication::receive) == 0)} || for $GIVE: store *elem($GIVE).first)* = * | TWO & !{(out(Communication::receive) == 0)}
        bind TAKE = GO.0
        IN) for $TAKE: call utils::set_intersection_indices(begin($SHAREDIDS), begin($SHAREDIDS), end($SHAREDIDS), begin(elem($TAKE).second), end(elem($TAKE).second), *) | TWO & LOSES || for $TAKE: call utils::set_intersection_indices(begin($SHAREDIDS), begin($SHAREDIDS), end($SHAREDIDS), begin(elem($TAKE).second), end(elem($TAKE).second), *) | TWO & LOST
        LO) for $TAKE >> *: store lv(idx($TAGS, idx($SHAREDPOS, elem(*)))) = 0 | TWO & LOSES || for $TAKE >> *: store lv(idx($TAGS, idx($SHAREDPOS, elem(*)))) = 0 | TWO & LOST
        order RL < IN < LO
        S) call ReceivedPartition::setOwnerInformation(this(), $TAGS) | TWO
        when call ReceivedPartition::setOwnerInformation(this(), $TAGS) | TWO
        order LO < S
    """), LOSES='({(idx($COUNTS, elem($TAKE).first) < $COUNT)} | {(idx($COUNTS, elem($TAKE).first) == $COUNT)} & {(elem($TAKE).first < IntraComm::getRank())})',
        LOST='({(idx($COUNTS, elem($TAKE).first) < $COUNT)} | !{($COUNT < idx($COUNTS, elem($TAKE).first))} & {(elem($TAKE).first < IntraComm::getRank())})',
        SHARED='{any($NEAR: BoundingBox::contains(elem($NEAR).second, VERTEX))}').replace('VERTEX', V)
    ctx.spec('ownership', f, t)
    G = '!TWO & SE & !{(NV == 0)}'
    ROOT = 'PR & !TWO'
    ctx.spec('ownership', f, sub(R("""
        [ownership, one-level | within !TWO & SE]
        SN) call Communication::send(COM, NV, 0) | !TWO & SE
        T1) for [0, NV): store * = 1 | G & {VERTEX._tagged}
        bind OWNTAGS = T1.0
        for [0, NV): store lv(idx($OWNTAGS, iv)) = 0 | G & !{VERTEX._tagged}
        I1) for [0, NV): store * = VERTEX._globalIndex | G
        bind OWNIDS = I1.0
        ST) call Communication::sendRange(COM, $OWNTAGS, 0) | G
        SI) call Communication::sendRange(COM, $OWNIDS, 0) | G
        SF) call Communication::send(COM, <any(*: VERTEX._tagged)>, 0) | G
        RO) call Communication::receiveRange(COM, 0, *) | G
        SO) call ReceivedPartition::setOwnerInformation(this(), Communication::receiveRange(COM, 0, *)) | G
        order SN < ST < SI < SF < RO < SO
        """), G=sub(G, TWO=TWO, SE=SE, NV=NV)).replace('VERTEX', V))
    # the primary rank
    g = sub('!TWO & PR & !{(out(Communication::receive) == 0)}', TWO=TWO, PR=PR)
    T = 'IntraComm::allRanks()'
    ctx.spec('ownership', f, sub(R("""
        [ownership, one-level | within !TWO & PR]
        RN) for ASR: call Communication::receive(COM, -1, RE) | !TWO & PR
        bind N = RN.out0
        T) for [0, NV): store * = 1 | !TWO & PR & {VERTEX._tagged}
        bind TAGS1 = T.0
        for [0, NV): store *idx(idx($TAGS1, 0), iv)* = 0 | !TWO & PR & !{VERTEX._tagged}
        I) for [0, NV): store * = VERTEX._globalIndex | !TWO & PR
        bind IDS1 = I.0
        ZR) for ASR: call vector::resize(*, $N*) | !TWO & PR
        bind OWNER = ZR.0
        for ASR: store *idx($TAGS1, RE)* = Communication::receiveRange(COM, RE, *) | !TWO & PR & !{($N == 0)}
        for ASR: store *idx($IDS1, RE)* = Communication::receiveRange(COM, RE, *) | !TWO & PR & !{($N == 0)}
        RF) for ASR: call Communication::receive(COM, 0, RE) | !TWO & PR & !{($N == 0)}
        order RN < ZR
        order RN < RF
        call vector::resize(idx($OWNER, 0), NV*) | !TWO & PR
        W) for ALLR >> * BREAKS: store *idx($OWNER, elem(ALLR))* = 1 | !TWO & PR & {(idx(*, idx(idx($IDS1, elem(ALLR)), iv)) == 0)} & {(idx(idx($TAGS1, elem(ALLR)), iv) == 1)}
        M) for ALLR >> * BREAKS: some store *idx(*, idx(idx($IDS1, elem(ALLR)), iv))* = *
        bind TAKEN = M.0
        for ALLR >> * BREAKS: store lv(elem(idx($OWNER, elem(ALLR)))) = 1 | !TWO & PR & {(idx($TAKEN, idx(idx($IDS1, elem(ALLR)), iv)) == 0)} & {(idx(idx($TAGS1, elem(ALLR)), iv) == 1)} || for ALLR >> * BREAKS: store lv(idx(idx($OWNER, elem(ALLR)), iv)) = 1 | !TWO & PR & {(idx($TAKEN, idx(idx($IDS1, elem(ALLR)), iv)) == 0)} & {(idx(idx($TAGS1, elem(ALLR)), iv) == 1)}
        for ALLR >> * BREAKS: when store lv(elem(idx($OWNER, elem(ALLR)))) = 1 | !TWO & PR & {(idx($TAKEN, idx(idx($IDS1, elem(ALLR)), iv)) == 0)} & {(idx(idx($TAGS1, elem(ALLR)), iv) == 1)} || for ALLR >> * BREAKS: when store lv(idx(idx($OWNER, elem(ALLR)), iv)) = 1 | !TWO & PR & {(idx($TAKEN, idx(idx($IDS1, elem(ALLR)), iv)) == 0)} & {(idx(idx($TAGS1, elem(ALLR)), iv) == 1)}
        for ALLR >> * BREAKS: when store lv(idx($TAKEN, idx(idx($IDS1, elem(ALLR)), iv))) = * | !TWO & PR & {(idx($TAKEN, idx(idx($IDS1, elem(ALLR)), iv)) == 0)} & {(idx(idx($TAGS1, elem(ALLR)), iv) == 1)}
        order RF < W
        B) for ASR: call Communication::sendRange(COM, idx($OWNER, RE), RE) | !TWO & PR & !{(size(idx($TAGS1, RE)) == 0)}
        O) call ReceivedPartition::setOwnerInformation(this(), idx($OWNER, 0)) | !TWO & PR
        when call ReceivedPartition::setOwnerInformation(this(), idx($OWNER, 0)) | !TWO & PR
        order W < B
        order W < O
        """), ALLR=T).replace('VERTEX', V))
    # marking a vertex as taken: with a value that differs from "free"
    n = 0
    for e in f.store('*'):
        t = f.n(e.args[0])
        if t.startswith('idx($TAKEN, '):
            n += 1
            v = f.n(e.val)
            ctx.ob('ownership, one-level', 'a vertex with an owner is marked as taken', v in ('1', '1+elem(%s)' % T, 'elem(%s)+1' % T), e.loc, v)
    ctx.need('ownership, one-level', n, 1)
    # two passes: the second one is not cut short
    ends = [e for e in f.store('*') if e.val is not None and f.n(e.val) == '1' and '$OWNER' in f.n(e.args[0])]
    full = [e for e in ends if not any(f.norm_gate(L.breaks) or f.norm_gate(L.exits) for L in e.loops)]
    ctx.ob('ownership, one-level', 'every tagged vertex is offered to every rank in a loop that is never left early', bool(full), ends[-1].loc if ends else '')
    ctx.ob('ownership, one-level', 'the complete round comes last', bool(full) and ends[-1] in full, ends[-1].loc if ends else '')
    ctx.spec('ownership, one-level', F(RP + 'setOwnerInformation'), """
        for _mesh._vertices: call Vertex::setOwner(elem(_mesh._vertices), <(idx(arg0, iv) == 1)>) || for [0, Mesh::nVertices(_mesh)): call Vertex::setOwner(Mesh::vertex(_mesh, iv), <(idx(arg0, iv) == 1)>)
    """)


def geometry(ctx, F, R):
    B = ME + 'BoundingBox::'
    OUT = '({(idx(arg0._coords, iv) < idx(_boundMin, iv))} | {(idx(_boundMax, iv) < idx(arg0._coords, iv))})'
    ctx.spec('bounding box geometry', B + 'contains', """
        for [0, _dimensions) BREAKS: ret return() = 0 | OUT
        ret return() = 1 | !{any(ivrange(0, _dimensions): *)}
    """.replace('OUT', OUT))
    cut = '({(idx(_boundMin, iv) < idx(arg0._boundMin, iv))} & {(idx(_boundMax, iv) < idx(arg0._boundMin, iv))} | {(idx(arg0._boundMin, iv) < idx(_boundMin, iv))} & {(idx(arg0._boundMax, iv) < idx(_boundMin, iv))})'
    ctx.spec('bounding box geometry', B + 'overlapping', """
        for [0, _dimensions) BREAKS: ret return() = 0 | CUT
        ret return() = 1 | !{any(ivrange(0, _dimensions): *)}
    """.replace('CUT', cut))
    ctx.spec('bounding box geometry', ctx.fn(B + 'expandBy', ptype='*BoundingBox*'), """
        store BoundingBox::_boundMin(_boundMin) = MatrixBase::cwiseMin(_boundMin, arg0._boundMin)
        store BoundingBox::_boundMax(_boundMax) = MatrixBase::cwiseMax(_boundMax, arg0._boundMax)
    """)
    ctx.spec('bounding box geometry', ctx.fn(B + 'expandBy', ptype='*Vertex*'), """
        store BoundingBox::_boundMin(_boundMin) = MatrixBase::cwiseMin(_boundMin, Vertex::getCoords(arg0))
        store BoundingBox::_boundMax(_boundMax) = MatrixBase::cwiseMax(_boundMax, Vertex::getCoords(arg0))
    """)
    DEF = '{DenseBase::isApproxToConstant(_boundMin, numeric_limits::max()*)} & {DenseBase::isApproxToConstant(_boundMax, numeric_limits::lowest()*)}'
    for n, w in (('scaleBy', '*DenseBase::maxCoeff(-1*_boundMin+_boundMax)*arg0*'), ('expandBy', 'arg0')):
        ctx.spec('bounding box geometry', ctx.fn(B + n, ptype='double'), """
            call ArrayBase::operator+=(idx(_boundMax, *array*), W) | !(DEF)
            call ArrayBase::operator-=(idx(_boundMin, *array*), W) | !(DEF)
        """.replace('W)', w + ')').replace('DEF', DEF))
    ctx.spec('bounding box geometry', B + 'isDefault', 'returns | ' + DEF)
    ctx.spec('bounding box geometry', B + 'empty', 'returns | {DenseBase::isZero(*_bound*_bound**)} | ' + DEF)
    ctx.spec('bounding box geometry', ctx.fn(B + 'BoundingBox', ptype='int'), """
        store BoundingBox::_dimensions(_dimensions) = arg0
        call DenseBase::fill(VectorXd(arg0), numeric_limits::max()) || call DenseBase::setConstant(VectorXd(arg0), numeric_limits::max())
        call DenseBase::fill(VectorXd(arg0), numeric_limits::lowest()) || call DenseBase::setConstant(VectorXd(arg0), numeric_limits::lowest())
    """)
    # which bound gets which
    f = ctx.fn(B + 'BoundingBox', ptype='int')
    for fld, fn in (('_boundMin', 'max'), ('_boundMax', 'lowest')):
        ev = [e for e in f.events if e.kind == 'call' and short(e.q).split('::')[-1] in ('fill', 'setConstant') and f.n(e.args[1]) == 'numeric_limits::%s()' % fn]
        ok = len(ev) == 1 and fld in str(ev[0].node)
        names = set()
        for e in ev:
            names |= {f.F.tu.decls[x['d']].n for x in effects.walkx(e.node, f.F.tu) if x.get('k') == 'mem' and 'd' in x}
        ctx.ob('bounding box geometry', 'an empty box: %s is the %s number' % (fld, 'largest' if fn == 'max' else 'lowest'), len(ev) == 1 and fld in names, ev[0].loc if ev else '', str(names))
    # filtering and merging meshes
    for n, fs, src, dst in (('filterMesh', [x for x in ctx.funcs(ME + 'filterMesh')], 'arg1', 'arg0'), ('addMesh', ctx.funcs(ME + 'Mesh::addMesh'), 'arg0', 'this()')):
        for i, x in enumerate(sorted(fs, key=lambda x: x.d.u)):
            f = ctx.analyse(x, policy=lambda A, F2, D: ctx.policy(A, F2, D) and D.n not in ('createVertex', 'createEdge', 'createTriangle', 'createTetrahedron', 'vertices', 'operator()'))
            P = '{*operator()(arg2, elem(arg1._vertices))}' if n == 'filterMesh' else ''
            C = lambda k, cls, name: ' & '.join('{contains(*, %s::vertex(elem(SRC._%s), %d)._id)}' % (cls, name, j) for j in range(k)) if n == 'filterMesh' else ''
            M = lambda k, cls, name: ', '.join('*%s::vertex(elem(SRC._%s), %d)._id)*' % (cls, name, j) for j in range(k))
            t = """
                NEW) for SRC._vertices: call Mesh::createVertex(DST, *Vertex::getCoords(elem(SRC._vertices))*) COND
                for SRC._vertices: call Vertex::setGlobalIndex(Mesh::createVertex(*), elem(SRC._vertices)._globalIndex) COND
                for SRC._vertices: call Vertex::tag(Mesh::createVertex(*)) AND{elem(SRC._vertices)._tagged}
                for SRC._vertices: call Vertex::setOwner(Mesh::createVertex(*), elem(SRC._vertices)._owner) COND
                V) for SRC._vertices: store *elem(SRC._vertices)._id)* = Mesh::createVertex(*) COND || for SRC._vertices: call *::*emplace*(*, elem(SRC._vertices)._id, Mesh::createVertex(*)) COND
            """
            t = t.replace('COND', '| ' + P if P else '').replace('AND', '| %s & ' % P if P else '| ')
            for k, cls, name in ((2, 'Edge', 'edges'), (3, 'Triangle', 'triangles'), (4, 'Tetrahedron', 'tetrahedra')):
                c = C(k, cls, name)
                t += """
                E) for SRC._%s: call Mesh::create%s(DST, %s)%s
                order V < E
                """ % (name, cls, M(k, cls, name), ' | ' + c if c else '')
            ctx.spec('filtering keeps whole elements' if n == 'filterMesh' else 'merging meshes', f, t.replace('SRC', src).replace('DST', dst))
    ctx.spec('bounding box geometry', ME + 'countVerticesInBoundingBox', 'ret return() = *count_if(arg0._vertices, <BoundingBox::contains(arg1, elem(arg0._vertices))>)')
