"""Data contexts and just-in-time mapping: which samples are mapped, in which direction, into what, and when cached results are dropped. Gated
summaries of the data contexts, of the cache of just-in-time mappings and of the base class of all mappings."""
from check import *
from api import *

MIN = 60
D_ = 'precice::impl::DataContext::'
R_ = 'precice::impl::ReadDataContext::'
W_ = 'precice::impl::WriteDataContext::'
M_ = 'precice::mapping::Mapping::'
C_ = 'precice::mapping::impl::MappingDataCache::'
OWN = ('scaleConsistentMapping', 'hasReadMapping', 'hasWriteMapping', 'appendMapping')


def run(ctx):
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in OWN
    fn = lambda q, **kw: ctx.fn(q, policy=keep, **kw)
    sp = lambda q, t, **kw: ctx.spec(R, fn(q, **kw) if isinstance(q, str) else q, t)

    # ---- who maps to whom
    R = 'direction'
    sp(R_ + 'appendMappingConfiguration', '''
        F) store *fromData* = Mesh::data(arg1.mesh, DataContext::getDataName(this()))
        T) store *toData* = _providedData
        A) call DataContext::appendMapping(this(), arg0)
        order F < A
        order T < A
    ''')
    sp(W_ + 'appendMappingConfiguration', '''
        F) store *fromData* = _providedData
        T) store *toData* = Mesh::data(arg1.mesh, DataContext::getDataName(this()))
        A) call DataContext::appendMapping(this(), arg0)
        order F < A
        order T < A
    ''')
    sp(D_ + 'appendMapping', 'call vector::*_back(_mappingContexts, arg0)')
    ctx.returns(R, fn(D_ + 'hasReadMapping'), '{any(_mappingContexts: (_providedData == elem(_mappingContexts).toData))}')
    ctx.returns(R, fn(D_ + 'hasWriteMapping'), '{any(_mappingContexts: (_providedData == elem(_mappingContexts).fromData))}')
    f = fn(D_ + 'hasMapping')
    ctx.returns(R, f, '{DataContext::hasReadMapping(this())} | {DataContext::hasWriteMapping(this())}')
    sp(D_ + 'addJustInTimeMapping', '''
        store *mappingCache* = new(precice::mapping::impl::MappingDataCache, (Mesh::data(arg1.mesh, *)._dimensions), *) || store *mappingCache* = *MappingDataCache*_dimensions*
        store *justInTimeMapping(justInTimeMapping) = arg0.mapping
        store *toData* = Mesh::data(arg1.mesh, _providedData._name) || store *toData* = Mesh::data(arg1.mesh, DataContext::getDataName(this()))
        store *fromData* = Mesh::data(arg1.mesh, _providedData._name) || store *fromData* = Mesh::data(arg1.mesh, DataContext::getDataName(this()))
    ''')

    # ---- which samples are mapped, and into what
    R = 'samples'
    f = fn(D_ + 'mapData')
    CX = 'elem(_mappingContexts)'
    ST = 'elem(Data::stamples(%s.fromData))' % CX
    EX = '{any(*%s.toData._waveform*: math::equals(*%s.timestamp*1e-14))}' % (CX, ST)
    OLD = '{math::smallerEquals(%s.timestamp, arg0, 1e-14)}' % ST
    ZERO = '{(IntraComm::l2norm(%s.sample.values) < 1e-14)}' % ST
    DO = '!%s & (!{arg0} | !%s)' % (EX, OLD)
    GO = '%s & !({arg1} & %s)' % (DO, ZERO)
    OUT = 'Sample(%s.fromData._dimensions, VectorXd(DenseBase::Zero(Mesh::nVertices(%s.mapping._output)*%s.fromData._dimensions)))' % (CX, CX, CX)
    ctx.spec(R, f, ("""
        [samples]
        throws | {any(_mappingContexts: (size(Data::stamples(CX.fromData)) == 0))}
        m) for _mappingContexts >> Data::stamples(CX.fromData): call Mapping::map(CX.mapping, ST.sample, OUT.values) | GO & !{Mapping::requiresInitialGuess(CX.mapping)}
        g) for _mappingContexts >> Data::stamples(CX.fromData): call Mapping::map(CX.mapping, ST.sample, OUT.values, idx(_initialGuesses, *(CX.fromData._id, CX.toData._id))) | GO & {Mapping::requiresInitialGuess(CX.mapping)}
        s) for _mappingContexts >> Data::stamples(CX.fromData): call Data::setSampleAtTime(CX.toData, ST.timestamp, OUT) | DO
        order m < s
        order g < s
    """).replace('GO', GO).replace('DO', DO).replace('OUT', OUT).replace('CX', CX).replace('ST.', ST + '.').replace('elem(_mappingContexts).fromData)).', 'elem(_mappingContexts).fromData)).'))
    rs = f.rets()
    n = f.n(rs[0].val) if len(rs) == 1 else ''
    ctx.ob(R, 'mapData: returns the number of samples mapped', len(rs) == 1 and n.count('1+phi') == 1 and match('lout(*0*', n) and match('*!(IntraComm::l2norm(*) < 1e-14)*', n), '%s:%s' % (f.F.file, f.F.line), n[:300])
    sp(D_ + 'resetInitialGuesses', 'for _initialGuesses: call DenseBase::setZero(elem(_initialGuesses).second)')
    TO = 'elem(_mappingContexts).toData._waveform'
    IN = '{ImplicitData::contains(arg0, elem(_mappingContexts).fromData._id)}'
    KEEP = '{ImplicitData::toKeep(arg0, elem(_mappingContexts).fromData._id)}'
    sp(R_ + 'clearToDataFor', """
        for _mappingContexts: call Waveform::clearExceptLast(TO) | IN & KEEP
        for _mappingContexts: call Waveform::clear(TO) | IN & !KEEP
    """.replace('TO', TO).replace('IN', IN).replace('KEEP', KEEP))
    sp(R_ + 'trimToDataAfterFor', 'for _mappingContexts: call Waveform::trimAfter(%s, arg1) | %s' % (TO, IN))
    sp(W_ + 'trimAfter', """
        call Waveform::trimAfter(_providedData._waveform, arg0)
        for _mappingContexts: when call Waveform::trimAfter(TO, arg0) | {DataContext::hasWriteMapping(this())}
    """.replace('TO', TO))
    sp(W_ + 'storeBufferedData', 'call Data::setSampleAtTime(_providedData, arg0, _writeDataBuffer)')
    sp(R_ + 'hasSamples', 'ret return() = Data::hasSamples(_providedData)')
    sp(R_ + 'getWaveformDegree', 'ret return() = Data::getWaveformDegree(_providedData) || ret return() = *_providedData._waveform*egree*')

    # ---- buffers: column of a vertex <-> position in the caller's arrays
    R = 'buffers'
    DD, SD, NV = 'DataContext::getDataDimensions(this())', 'DataContext::getSpatialDimensions(this())', 'DataContext::getMeshVertexCount(this())'
    DD_ = '*_dimensions' if False else DD
    sp(R_ + 'readValues', """
        for arg0: store lv(idx($[Map(arg2, DD, *, Stride())], tup(col, (iv)))) = DenseBase::col(DenseBase::reshaped(Data::sampleAtTime(_providedData, arg1)._view, DD, NV), elem(arg0))
    """.replace('DD', DD).replace('NV', NV))
    sp(W_ + 'writeValuesIntoDataBuffer', """
        for arg0: store lv(idx($[Map(PlainObjectBase::data(_writeDataBuffer.values), DD, NV, Stride())], tup(col, (elem(arg0))))) = DenseBase::col(Map(arg1, DD, size(arg0), Stride()), iv)
    """.replace('DD', DD).replace('NV', NV))
    sp(W_ + 'writeGradientsIntoDataBuffer', """
        for arg0: store lv(idx($[Map(PlainObjectBase::data(_writeDataBuffer.gradients), DD*SD, NV, Stride())], tup(col, (elem(arg0))))) = DenseBase::col(Map(arg1, DD*SD, size(arg0), Stride()), iv)
    """.replace('DD', DD).replace('NV', NV).replace('SD', SD))
    N = DD + '*arg0'
    GROW = '(-1*%s+size(_writeDataBuffer.values) < 0)' % N
    sp(W_ + 'resizeBufferTo', """
        V) call PlainObjectBase::conservativeResize(_writeDataBuffer.values, <N>)
        T) when call DenseBase::setZero(*_writeDataBuffer.values*tail*-1*size(_writeDataBuffer.values)+<N>*) | {<GROW>} & !{arg1}
        only call DenseBase::setZero(*_writeDataBuffer.values*tail*-1*size(_writeDataBuffer.values)+<N>*) | {<GROW>}
        Z) call DenseBase::setZero(_writeDataBuffer.values*) @ !*tail* | {arg1}
        G) call PlainObjectBase::conservativeResize(_writeDataBuffer.gradients, SD, <N>) | {_providedData._hasGradient}
        H) when call DenseBase::setZero(DenseBase::rightCols(_writeDataBuffer.gradients*, -1*size(_writeDataBuffer.values)+<N>)) | {<GROW>} & {_providedData._hasGradient} & !{arg1}
        only call DenseBase::setZero(DenseBase::rightCols(_writeDataBuffer.gradients*, -1*size(_writeDataBuffer.values)+<N>)) | {<GROW>} & {_providedData._hasGradient}
        J) call DenseBase::setZero(_writeDataBuffer.gradients*) | {arg1} & {_providedData._hasGradient}
        order V < T
        order V < Z
        order G < H
        order G < J
    """.replace('<GROW>', GROW).replace('<N>', N).replace('SD', SD).replace(' @ !*tail*', ''))
    sp(W_ + 'resetBufferedData', """
        call DataContext::invalidateMappingCacheAndResetData(this())
        call DenseBase::setZero(_writeDataBuffer.values)
        call DenseBase::setZero(_writeDataBuffer.gradients)
    """)

    # ---- just-in-time mapping
    R = 'just in time'
    CACHED = '{MappingDataCache::hasDataAtTimeStamp(mappingCache, arg1)}'
    sp(R_ + 'mapAndReadValues', """
        u) call Mapping::updateMappingDataCache(justInTimeMapping, mappingCache, *Data::sampleAtTime(_providedData, arg1)._view*) | !CACHED
        t) call MappingDataCache::setTimeStamp(mappingCache, arg1) | !CACHED
        m) call Mapping::mapConsistentAt(justInTimeMapping, *Map(arg0, SD, (size(arg0) / SD), Stride())*, mappingCache, *Map(arg2, DD, (size(arg2) / DD), Stride())*)
        order u < m
    """.replace('CACHED', CACHED).replace('DD', DD).replace('SD', SD))
    sp(W_ + 'writeAndMapValues', """
        call Mapping::mapConservativeAt(justInTimeMapping, *Map(arg0, SD, (size(arg0) / SD), Stride())*, *Map(arg1, DD, (size(*) / *), Stride())*, mappingCache, *Map(PlainObjectBase::data(_writeDataBuffer.values), DD, NV, Stride())*)
    """.replace('NV', NV).replace('DD', DD).replace('SD', SD))
    sp(W_ + 'completeJustInTimeMapping', """
        call Mapping::completeJustInTimeMapping(justInTimeMapping, mappingCache, *Map(PlainObjectBase::data(_writeDataBuffer.values), DX, (size(_writeDataBuffer.values) / DX), Stride())*) | {justInTimeMapping}
    """.replace('DX', '_providedData._dimensions'))
    sp(D_ + 'initializeMappingDataCache', """
        i) call Mapping::initializeMappingDataCache(justInTimeMapping, mappingCache) | {mappingCache}
        r) call MappingDataCache::resetData(mappingCache) | {mappingCache}
        order i < r
    """)
    sp(D_ + 'invalidateMappingCache', 'call MappingDataCache::resetTimeStamp(mappingCache) | {mappingCache}')
    sp(D_ + 'invalidateMappingCacheAndResetData', """
        call MappingDataCache::resetTimeStamp(mappingCache) | {mappingCache}
        call MappingDataCache::resetData(mappingCache) | {mappingCache}
    """)
    sp(D_ + 'hasJustInTimeMapping', 'ret return() = *justInTimeMapping*')
    sp(C_ + 'resetData', """
        call Sample::setZero(inData.sample)
        for polynomialContributions: call DenseBase::setZero(elem(polynomialContributions))
        for p: call DenseBase::setZero(elem(p))
    """)
    sp(C_ + 'resetTimeStamp', 'final inData.timestamp = -1 || store Stample::timestamp(inData.timestamp) = -1')
    sp(C_ + 'setTimeStamp', 'store Stample::timestamp(inData.timestamp) = arg0')
    sp(C_ + 'hasDataAtTimeStamp', 'ret return() = math::equals(inData.timestamp, arg0, 1e-14) || ret return() = math::equals(arg0, inData.timestamp, 1e-14)')
    sp(C_ + 'getDataDimensions', 'ret return() = inData.sample.dataDims')
    sp(M_ + 'updateMappingDataCache', 'store Sample::values(arg0.inData.sample.values) = arg1')
    f = fn('precice::impl::ParticipantState::initializeMappingDataCache')
    WR = '{(arg0 == *"write"*)}'
    RD = '{(arg0 == *"read"*)}'
    cond = WR if f.A.B and [a for a in f.atoms(WR[1:-1])] else '!' + RD
    ctx.spec(R, f, """
        for _writeDataContexts: call DataContext::initializeMappingDataCache(elem(_writeDataContexts).second) | CC
        for _readDataContexts: call DataContext::initializeMappingDataCache(elem(_readDataContexts).second) | !(CC)
    """.replace('CC', cond))
    f = ctx.fn('precice::impl::ParticipantImpl::computeMappings')
    NEW = '!{Mapping::hasComputedMapping(elem(arg0).mapping)}'
    fld = [x for x in ('Mapping::hasComputedMapping(elem(arg0).mapping)', 'elem(arg0).mapping._hasComputedMapping') if f.atoms(x)]
    ctx.ob(R, 'computeMappings: looks whether a mapping is computed', bool(fld), '%s:%s' % (f.F.file, f.F.line), '')
    if fld:
        ctx.spec(R, f, """
            c) for arg0: call Mapping::computeMapping(elem(arg0).mapping) | !{HC}
            i) call ParticipantState::initializeMappingDataCache(_accessor, arg1) | {any(arg0: !HC)}
            order c < i
        """.replace('HC', fld[0]))

    # ---- the base class: which variant runs, scaling
    R = 'constraint'
    CO, CS, SS, SV = ('{(_constraint == Mapping::%s)}' % x for x in ('CONSERVATIVE', 'CONSISTENT', 'SCALED_CONSISTENT_SURFACE', 'SCALED_CONSISTENT_VOLUME'))
    rep = lambda t: t.replace('CO', CO).replace('CS', CS).replace('SS', SS).replace('SV', SV)
    overloads = [ctx.analyse(F, policy=keep) for F in ctx.funcs(M_ + 'map')]
    n = 0
    for f in overloads:
        ps = [p.replace('precice::', '') for p in f.F.d.ps]
        if len(ps) == 3:
            n += 1
            ctx.spec(R, f, """
                a) store Mapping::_initialGuess(_initialGuess) = arg2
                m) call Mapping::map(this(), arg0, arg1)
                z) store Mapping::_initialGuess(_initialGuess) = null()
                order a < m < z
            """)
        elif 'Sample' in ps[0]:
            n += 1
            ctx.spec(R, f, rep("""
                call Mapping::mapConservative(this(), arg0, arg1) | CO
                a) when call Mapping::mapConsistent(this(), arg0, arg1) | !CO & CS
                b) when call Mapping::mapConsistent(this(), arg0, arg1) | !CO & !CS & (SS | SV)
                only call Mapping::mapConsistent(this(), arg0, arg1) | !CO
                s) when call Mapping::scaleConsistentMapping(this(), arg0.values, arg1, _constraint) | !CO & !CS & (SS | SV)
                only call Mapping::scaleConsistentMapping(*) | !CO & (SS | SV)
                order b < s
            """))
        else:
            n += 1
            ctx.spec(R, f, """
                call Mapping::map(this(), Sample(Mesh::data(_input, arg0)._dimensions, Data::values(Mesh::data(_input, arg0)), Data::gradients(Mesh::data(_input, arg0))), Data::values(Mesh::data(_output, arg1)))
            """)
    ctx.need(R, n, 4)
    BOTH = '!{(size(arg0) == 0)} & !{(size(arg1) == 0)}'
    f = fn(M_ + 'scaleConsistentMapping')
    ctx.spec(R, f, rep("""
        call mesh::integrateSurface(_input, arg0) | BOTH & !SV
        B) call mesh::integrateSurface(_output, arg1) | BOTH & !SV
        call mesh::integrateVolume(_input, arg0) | BOTH & SV
        D) call mesh::integrateVolume(_output, arg1) | BOTH & SV
        X) call VectorwiseOp::operator*=(MAT, idx($[VectorXd(FAC)], *)) | BOTH || X) call VectorwiseOp::operator*=(MAT, idx($[FAC], *)) | BOTH || X) call VectorwiseOp::operator*=(MAT, *FAC*) | BOTH
        order B < X
        order D < X
    """).replace('MAT', 'DenseBase::colwise(idx($[Map(PlainObjectBase::data(arg1), (size(arg0) / Mesh::nVertices(_input)), *)], *))').replace('FAC', 'MatrixBase::binaryExpr([*(_input, arg0)*(_input, arg0)*], [*(_output, arg1)*(_output, arg1)*], lambda{[(p1 == 0) ? 1 : (p0 / p1)]})').replace('BOTH', BOTH))
    conn = []
    for m in ('_input', '_output'):
        for k, d in (('edges', '{(_input._dimensions == 2)} & !SV'), ('triangles', '({(_input._dimensions == 2)} & SV | {(_input._dimensions == 3)} & !SV)'), ('tetrahedra', '{(_input._dimensions == 3)} & SV')):
            conn.append('!{Mesh::empty(%s)} & {(size(%s._%s) == 0)} & %s' % (m, m, k, rep(d)))
    ctx.spec(R, f, 'throws | %s & (%s)' % (BOTH, ' | '.join('(%s)' % c for c in conn)))
    f = fn(M_ + 'setMeshes')
    ctx.spec(R, f, """
        final _input = arg0
        final _output = arg1
    """)
