"""Acceleration: relaxation treats every sample of the window alike, the long vectors are laid out the same way wherever they are written and read,
and the matrices of the least-squares system, their QR decomposition and their column counters change together. Gated summaries of the acceleration
schemes, the preconditioners and the QR decomposition."""
from check import *
from api import *

MIN = 120
A_ = 'precice::acceleration::'
Q_ = A_ + 'BaseQNAcceleration::'
I_ = A_ + 'IQNIMVJAcceleration::'
F_ = A_ + 'impl::QRFactorization::'
P_ = A_ + 'impl::Preconditioner::'
OWN = ('getLSSystemCols', 'getPrimaryLSSystemRows', 'getLSSystemRows', 'concatenateCouplingData', 'initializeVectorsAndPreconditioner', 'removeMatrixColumn', 'updateDifferenceMatrices', 'l2norm', 'dot',
       'checkBoundViolation', 'onBoundViolationsClamp', 'onBoundViolationsScale', 'updateCouplingData', 'applyFilter', 'specializedIterationsConverged', 'computeQNUpdate', 'applyRelaxation', 'clampToBounds',
       'computeShorteningFactor', 'buildWtil', 'buildJacobian', 'pseudoInverse', 'restartIMVJ', 'computeNewtonUpdateEfficient', 'computeNewtonUpdate', 'removeMatrixColumnRSLS', 'deleteColumn', 'insertColumn',
       'orthogonalize', 'computeReflector', 'applyReflector', 'resetFilter')


def terms(t, k):
    todo, got = [t], []
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        if hasattr(x, 'k'):
            if x.k in k:
                got.append(x)
            todo += list(x.a)
    return got


def run(ctx):
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in OWN
    fn = lambda q, **kw: ctx.fn(q, policy=keep, **kw)
    sp = lambda q, t, **kw: ctx.spec(R, fn(q, **kw) if isinstance(q, str) else q, t)

    def position(rule, f, e, what, size):
        """the position at which a block of a long vector is written or read: starts at 0 and grows by the size of every block before it"""
        ts = [t for a in e.args for t in terms(a, ('phi',))] + ([t for t in terms(e.val, ('phi',))] if e.val is not None else [])
        seen, ok, why = set(), False, 'no running position is used'
        for t in ts:
            init, fin = f.carried(e, t)
            if fin is None or str(t) in seen:
                continue
            seen.add(str(t))
            s = f.n(fin)
            if not match('*phi*', s) or 'store' in s:
                continue
            good = any(match(p, s) for p in size)
            while good and hasattr(init, 'k') and init.k == 'phi':
                init, fin = f.carried(e, init)
                good = fin is not None and 'lout(' in f.n(fin)
            z = f.n(init) if init is not None else ''
            if good and z == '0':
                ok = True
            else:
                why = 'the position starts at %s and becomes %s' % (z, s)
        ctx.ob(rule, '%s: %s' % (f.name.split('::')[-1], what), ok, e.loc, '' if ok else why)

    # ---- relaxation
    R = 'relaxation'
    W = 'for arg1 >> Waveform::stamples(CouplingData::waveform(elem(arg1).second)): '
    ST = 'elem(Waveform::stamples(CouplingData::waveform(elem(arg1).second)))'
    C = '!{Waveform::empty(CouplingData::waveform(elem(arg1).second))} & {math::greater(%s.timestamp, arg2, 1e-14)}' % ST
    f = ctx.fn(A_ + 'Acceleration::applyRelaxation')
    ctx.spec(R, f, '''
        V) W store Sample::values(ST.sample.values) = -1*PV*arg0+PV+arg0*ST.sample.values | C
        G) W store Sample::gradients(ST.sample.gradients) = -1*PG*arg0+PG+arg0*ST.sample.gradients | C & {CouplingData::hasGradient(elem(arg1).second)}
        S) W call CouplingData::setGlobalSample(elem(arg1).second, ST.sample) | C || S) for arg1: call CouplingData::setGlobalSample(elem(arg1).second, *back(*).sample) | !{Waveform::empty(CouplingData::waveform(elem(arg1).second))}
        order V < S
        order G < S
        none call Waveform::trim*(*)
        none call Waveform::setSampleAtTime(*)
    '''.replace('PV', 'CouplingData::getPreviousValuesAtTime(elem(arg1).second, ST.timestamp)._view').replace('PG', 'CouplingData::getPreviousGradientsAtTime(elem(arg1).second, ST.timestamp)').replace('| C', '| ' + C).replace('W ', W).replace('ST.', ST + '.'))
    f = fn(A_ + 'ConstantRelaxationAcceleration::performAcceleration')
    ctx.spec(R, f, 'call Acceleration::applyRelaxation(_relaxation, arg0, arg1)')
    sp(A_ + 'ConstantRelaxationAcceleration::ConstantRelaxationAcceleration', '''
        final _relaxation = arg0
        final _dataIDs = arg1
        throws | !{(0 < arg0)} | {(1 < arg0)}
    ''')
    AK = A_ + 'AitkenAcceleration::'
    sp(AK + 'AitkenAcceleration', '''
        final _initialRelaxation = arg0
        final _aitkenFactor = arg0
        final _primaryDataIDs = arg1
        final _preconditioner = arg2
        throws | !{(0 < arg0)} | {(1 < arg0)}
    ''')
    MANY = '{(1 < size(_primaryDataIDs))}'
    FIRST = '{(_iterationCounter == 0)}'
    sp(AK + 'initialize', '''
        call Acceleration::checkDataIDs(this(), arg0)
        store AitkenAcceleration::_oldResiduals(_oldResiduals) = DenseBase::Zero(*accumulate*)
        store AitkenAcceleration::_values(_values) = DenseBase::Zero(*accumulate*)
        store AitkenAcceleration::_oldValues(_oldValues) = DenseBase::Zero(*accumulate*)
        call Preconditioner::initialize(_preconditioner, *) | MANY
    '''.replace('MANY', MANY))
    f = fn(AK + 'performAcceleration')
    lab = {}
    ctx.spec(R, f, '''
        C) call AitkenAcceleration::concatenateCouplingData(this(), arg0, _primaryDataIDs, _values, _oldValues, arg1, arg2)
        bind NEW = C.out2
        bind OLD = C.out3
        P) call Preconditioner::update(_preconditioner, 0, $NEW, VectorXd($NEW+-1*$OLD)) | MANY
        D) call Preconditioner::apply(_preconditioner, VectorXd(-1*_oldResiduals+VectorXd($NEW+-1*$OLD))) | !FIRST & MANY
        O) call Preconditioner::apply(_preconditioner, _oldResiduals) | !FIRST & MANY
        bind DELTA = D.out0
        bind OLDR = O.out0
        when store AitkenAcceleration::_aitkenFactor(_aitkenFactor) = math::sign(_aitkenFactor)*std::min(_initialRelaxation, std::abs(_aitkenFactor)) | FIRST
        when store AitkenAcceleration::_aitkenFactor(_aitkenFactor) = -1*(IntraComm::dot(RR, DD) / IntraComm::dot(DD, DD))*_aitkenFactor | !FIRST
        call Acceleration::applyRelaxation(math::sign(_aitkenFactor)*std::min(_initialRelaxation, std::abs(_aitkenFactor)), arg0, arg1) | FIRST
        X) call Acceleration::applyRelaxation(-1*(IntraComm::dot(RR, DD) / IntraComm::dot(DD, DD))*_aitkenFactor, arg0, arg1) | !FIRST
        final _oldResiduals = VectorXd($NEW+-1*$OLD)
        final _iterationCounter = 1+_iterationCounter
        order C < P < D
        order P < O
    '''.replace('RR', '[(1 < size(_primaryDataIDs)) ? $OLDR : _oldResiduals]').replace('DD', '[(1 < size(_primaryDataIDs)) ? $DELTA : VectorXd(-1*_oldResiduals+VectorXd($NEW+-1*$OLD))]').replace('MANY', MANY).replace('FIRST', FIRST), labels=lab)
    sp(AK + 'iterationsConverged', '''
        final _iterationCounter = 0
        P) call Preconditioner::update(_preconditioner, 1, _values, _oldResiduals) | MANY
        none store AitkenAcceleration::_aitkenFactor(*)
    '''.replace('MANY', MANY))

    # ---- layout
    R = 'layout of the long vectors'
    ONE = 'CouplingData::getSize(idx(%s, elem(%s)))'
    size = lambda d, ids: ['phi+' + x for x in ()] + [p for s in ('CouplingData::getSize(idx(%s, elem(%s)))' % (d, ids), 'size(CouplingData::values(idx(%s, elem(%s))))' % (d, ids)) for p in (s + '+phi', 'phi+' + s)]
    f = fn(AK + 'concatenateCouplingData')
    ctx.spec(R, f, '''
        A) for arg1 >> [0, CouplingData::getSize(idx(arg0, elem(arg1)))): store par(idx(arg2, iv+phi)) = idx(Waveform::sample(CouplingData::waveform(idx(arg0, elem(arg1))), arg5)._view, iv)
        B) for arg1 >> [0, CouplingData::getSize(idx(arg0, elem(arg1)))): store par(idx(arg3, iv+phi)) = idx(CouplingData::getPreviousValuesAtTime(idx(arg0, elem(arg1)), arg5)._view, iv)
    ''')
    n = 0
    for e in f.events:
        if e.kind == 'store' and len(e.loops) > 1 and re.search(r'arg[23]\b', f.n(e.args[0])):
            n += 1
            position(R, f, e, 'the blocks follow one another in the order of the data', size('arg0', 'arg1'))
    ctx.need(R, n, 2)
    f = fn(Q_ + 'concatenateCouplingData')
    ctx.spec(R, f, '''
        L store par(idx(arg0, iv+phi)) = SampleResult::operator()(Waveform::sample(CouplingData::waveform(idx(arg2, elem(arg3))), idx($[TG], iv1)), iv) || L store par(idx(arg0, iv+phi)) = SampleResult::operator()(Waveform::sample(CouplingData::waveform(idx(arg2, elem(arg3))), elem(TG)), iv)
        L store par(idx(arg1, iv+phi)) = SampleResult::operator()(CouplingData::getPreviousValuesAtTime(idx(arg2, elem(arg3)), idx($[TG], iv1)), iv) || L store par(idx(arg1, iv+phi)) = SampleResult::operator()(CouplingData::getPreviousValuesAtTime(idx(arg2, elem(arg3)), elem(TG)), iv)
    '''.replace('L ', 'for arg3 >> TG >> [0, CouplingData::getSize(idx(arg2, elem(arg3)))): ').replace('TG', 'TimeGrids::getTimeGridAfter(arg4, elem(arg3), arg5)'))
    n = 0
    for e in f.events:
        if e.kind == 'store' and len(e.loops) > 1 and re.search(r'arg[01]\b', f.n(e.args[0])):
            n += 1
            position(R, f, e, 'one block per data and time step, in the order of the data', size('arg2', 'arg3'))
    ctx.need(R, n, 2)
    f = fn(Q_ + 'updateCouplingData')
    ctx.spec(R, f, '''
        T) for _dataIDs: call Waveform::trimAfter(CouplingData::waveform(idx(arg0, elem(_dataIDs))), arg1)
        X) for _dataIDs >> TG >> [0, CouplingData::getSize(idx(arg0, elem(_dataIDs)))): store lv(idx(*, iv)) = idx(_values, iv+phi) || X) for _dataIDs >> TG: call DenseBase::segment(_values, phi, CouplingData::getSize(idx(arg0, elem(_dataIDs))))
        S) for _dataIDs >> TG: call CouplingData::setSampleAtTime(idx(arg0, elem(_dataIDs)), idx($[TG], iv), Sample(CouplingData::getDimensions(idx(arg0, elem(_dataIDs))), *)) || S) for _dataIDs >> TG: call CouplingData::setSampleAtTime(idx(arg0, elem(_dataIDs)), elem(TG), Sample(CouplingData::getDimensions(idx(arg0, elem(_dataIDs))), *))
        order T < S
    '''.replace('TG', 'TimeGrids::getTimeGridAfter(_timeGrids, elem(_dataIDs), arg1)'))
    n = 0
    for e in f.events:
        if e.kind == 'store' and len(e.loops) > 2 and '_values' in f.n(e.val) or e.kind == 'call' and e.q.endswith('::segment') and f.n(e.args[0]) == '_values':
            n += 1
            position(R, f, e, 'one block per data and time step, in the order of the data', size('arg0', '_dataIDs'))
    ctx.need(R, n, 1)
    for m, ids, w, vecs in (('checkBoundViolation', '_idsWithBounds', 'arg2', ('arg0',)), ('onBoundViolationsClamp', 'arg2', 'arg3', ('arg0',)), ('onBoundViolationsScale', 'arg2', 'arg4', ('arg0', 'arg3'))):
        f = fn(Q_ + m)
        n = 0
        tot = '[_timeGrids ? size(TimeGrids::getTimeGridAfter(_timeGrids, elem(_dataIDs), %s)) : 1]*size(CouplingData::values(idx(*, elem(_dataIDs))))' % w
        tots = [tot, tot.replace('[_timeGrids ? ', '').replace(' : 1]', ''), tot.replace('size(CouplingData::values(', 'CouplingData::getSize(').replace('_dataIDs))))', '_dataIDs)))')]
        for e in f.events:
            if e.kind == 'call' and e.q.endswith('::segment'):
                n += 1
                t = f.n(e.args[2]) if len(e.args) > 2 else ''
                ctx.ob(R, '%s: a block spans all time steps of the window' % m, any(match(x.replace('[', '[[]').replace('?', '[?]') if 0 else x, t) for x in tots), e.loc, 'the block has the size %s' % t)
                ctx.ob(R, '%s: only data with bounds in question' % m, f.A.B.implies(e.g, f.cond('{contains(%s, elem(_dataIDs))}' % ids)), e.loc, 'every data is looked at')
                position(R, f, e, 'the blocks follow one another in the order of the data', [x + '+phi' for x in tots] + ['phi+' + x for x in tots])
        ctx.need(R, n, len(vecs))
        for v in vecs:
            ctx.spec(R, f, 'for _dataIDs: call DenseBase::segment(%s, phi, *) | {contains(%s, elem(_dataIDs))}' % (v, ids))
    f = fn(Q_ + 'initializeVectorsAndPreconditioner')
    ALL = 'lout(0, CouplingData::getSize(idx(arg0, elem(_dataIDs)))*size(TimeGrids::getTimeGridAfter(*(arg0, _dataIDs, 0)*, elem(_dataIDs), arg1))+phi)'
    PRI = 'lout(0, CouplingData::getSize(idx(arg0, elem(_primaryDataIDs)))*size(TimeGrids::getTimeGridAfter(*(arg0, _primaryDataIDs, _reducedTimeGrid)*, elem(_primaryDataIDs), arg1))+phi)'
    ctx.spec(R, f, '''
        G) store BaseQNAcceleration::_timeGrids(_timeGrids) = *(arg0, _dataIDs, 0)* || G) call optional::emplace(_timeGrids, arg0, _dataIDs, 0)
        H) store BaseQNAcceleration::_primaryTimeGrids(_primaryTimeGrids) = *(arg0, _primaryDataIDs, _reducedTimeGrid)* || H) call optional::emplace(_primaryTimeGrids, arg0, _primaryDataIDs, _reducedTimeGrid)
        A) store BaseQNAcceleration::_values(_values) = DenseBase::Zero(ALL)
        store BaseQNAcceleration::_oldValues(_oldValues) = DenseBase::Zero(ALL)
        store BaseQNAcceleration::_oldXTilde(_oldXTilde) = DenseBase::Zero(ALL)
        store BaseQNAcceleration::_residuals(_residuals) = DenseBase::Zero(ALL)
        store BaseQNAcceleration::_primaryValues(_primaryValues) = DenseBase::Zero(PRI)
        store BaseQNAcceleration::_oldPrimaryValues(_oldPrimaryValues) = DenseBase::Zero(PRI)
        store BaseQNAcceleration::_oldPrimaryXTilde(_oldPrimaryXTilde) = DenseBase::Zero(PRI)
        store BaseQNAcceleration::_primaryResiduals(_primaryResiduals) = DenseBase::Zero(PRI)
        store BaseQNAcceleration::_oldPrimaryResiduals(_oldPrimaryResiduals) = DenseBase::Zero(PRI)
        call PlainObjectBase::resize(_matrixW, 0, 0)
        call PlainObjectBase::resize(_matrixV, 0, 0)
        call vector::resize(_dimOffsets, 1+IntraComm::getSize()) | {IntraComm::isParallel()}
        call vector::resize(_dimOffsetsPrimary, 1+IntraComm::getSize()) | {IntraComm::isParallel()}
        store BaseQNAcceleration::_dimOffsets(idx(_dimOffsets, 0)) = 0 | {IntraComm::isParallel()}
        store BaseQNAcceleration::_dimOffsetsPrimary(idx(_dimOffsetsPrimary, 0)) = 0 | {IntraComm::isParallel()}
        for *: store BaseQNAcceleration::_dimOffsets(idx(_dimOffsets, 1+iv)) = lout(0, CouplingData::getDimensions(idx(arg0, elem(_dataIDs)))*idx(*, iv)*size(TimeGrids::getTimeGridAfter(*(arg0, _dataIDs, 0)*, elem(_dataIDs), arg1))+phi) | {IntraComm::isParallel()}
        for *: store BaseQNAcceleration::_dimOffsetsPrimary(idx(_dimOffsetsPrimary, 1+iv)) = lout(0, [utils::contained(elem(_dataIDs), _primaryDataIDs) ? CouplingData::getDimensions(idx(arg0, elem(_dataIDs)))*idx(*, iv)*size(TimeGrids::getTimeGridAfter(*(arg0, _primaryDataIDs, _reducedTimeGrid)*, elem(_dataIDs), arg1))+phi : phi]) | {IntraComm::isParallel()}
        Q) call QRFactorization::reset(_qrV)
        N) call QRFactorization::setGlobalRows(_qrV, BaseQNAcceleration::getPrimaryLSSystemRows(this()))
        P) call Preconditioner::initialize(_preconditioner, *)
        S) call BaseQNAcceleration::specializedInitializeVectorsAndPreconditioner(this(), arg0)
        order Q < N < S
        order P < S
    '''.replace('ALL', ALL).replace('PRI)', PRI + ')'))
    sp(Q_ + 'getPrimaryLSSystemRows', '''
        ret return() = *back(_dimOffsetsPrimary) | {IntraComm::isParallel()}
        ret return() = size(_primaryResiduals) | !{IntraComm::isParallel()}
    ''')
    sp(Q_ + 'getLSSystemRows', '''
        ret return() = *back(_dimOffsets) | {IntraComm::isParallel()}
        ret return() = size(_residuals) | !{IntraComm::isParallel()}
    ''')
    sp(Q_ + 'getLSSystemCols', 'ret return() = lout(0, elem(_matrixCols)+phi) || ret return() = std::accumulate(begin(_matrixCols), end(_matrixCols), 0)')
    T_ = 'precice::time::TimeGrids::'
    sp(T_ + 'getTimeGridAfter', '''
        for *_timeGrids*: call vector::*_back(*, elem(*_timeGrids*)) | {math::greater(elem(*_timeGrids*), arg1, 1e-14)}
    ''')

    # ---- lockstep
    R = 'V, W, the QR decomposition and the column counters change together'
    for q in ('appendFront', 'shiftSetFirst'):
        for f in (fn('precice::utils::' + q),):
            ctx.spec(R, f, '''
                when M) for while: store lv(idx(*arg0*, tup(col, (phi)))) = DenseBase::col(arg0, -1*1+phi) | {(0 < phi)}
                Z) store lv(idx(*arg0*, tup(col, (0)))) = arg1%s
                order M < Z
            '''.replace('when M)', 'M) when' if 0 else 'M)') % (' | {(0 < PlainObjectBase::rows(arg0))} | {(0 < PlainObjectBase::cols(arg0))}' if q == 'appendFront' else '') if q == 'shiftSetFirst' else '''
                store parameter(arg0) = arg1 | !{(0 < PlainObjectBase::cols(arg0))} & !{(0 < PlainObjectBase::rows(arg0))}
                R) call PlainObjectBase::conservativeResize(arg0, PlainObjectBase::rows(arg0), 1+PlainObjectBase::cols(arg0)) | {(0 < PlainObjectBase::rows(arg0))} | {(0 < PlainObjectBase::cols(arg0))}
                M) for while: store lv(idx(*arg0*, tup(col, (phi)))) = DenseBase::col(arg0, -1*1+phi) | {(0 < phi)} & ({(0 < PlainObjectBase::rows(arg0))} | {(0 < PlainObjectBase::cols(arg0))})
                Z) store lv(idx(*arg0*, tup(col, (0)))) = arg1 | {(0 < PlainObjectBase::rows(arg0))} | {(0 < PlainObjectBase::cols(arg0))}
                order R < M < Z
            ''')
    sp('precice::utils::removeColumnFromMatrix', '''
        M) for [arg1, -1*1+PlainObjectBase::cols(arg0)): store lv(idx(*, tup(col, (iv)))) = DenseBase::col(arg0, 1+iv)
        R) call PlainObjectBase::conservativeResize(*, *rows(*, -1*1+PlainObjectBase::cols(*)
        order M < R
    ''')
    FULL = '({(BaseQNAcceleration::getLSSystemCols(this()) == _maxIterationsUsed)} | {(BaseQNAcceleration::getPrimaryLSSystemRows(this()) < BaseQNAcceleration::getLSSystemCols(this()))})'
    DR = '-1*_oldPrimaryResiduals+-1*_oldPrimaryValues+_primaryValues'
    f = fn(Q_ + 'updateDifferenceMatrices')
    ctx.spec(R, f, '''
        call utils::appendFront(_matrixV, DR) | !FULL & !{_firstIteration}
        call utils::appendFront(_matrixW, -1*_oldXTilde+_values) | !FULL & !{_firstIteration}
        call QRFactorization::pushFront(_qrV, out(Preconditioner::apply)) | !{_firstIteration}
        only call Preconditioner::apply(_preconditioner, *) | !{_firstIteration}
        when call Preconditioner::apply(_preconditioner, DR) | FULL & !{_firstIteration}
        some store BaseQNAcceleration::_matrixCols(idx(_matrixCols, 0)) = 1+idx(_matrixCols, 0) | !{_firstIteration}
        call utils::shiftSetFirst(_matrixV, DR) | FULL & !{_firstIteration}
        call utils::shiftSetFirst(_matrixW, -1*_oldXTilde+_values) | FULL & !{_firstIteration}
        call QRFactorization::popBack(_qrV) | FULL & !{_firstIteration}
        store BaseQNAcceleration::_matrixCols(idx(_matrixCols, "back")) = -1*1+idx(_matrixCols, "back") | FULL & !{_firstIteration}
        call deque::pop_back(_matrixCols*) | FULL & !{_firstIteration} & {(deque::back(_matrixCols*) == 0)}
        store BaseQNAcceleration::_oldPrimaryResiduals(_oldPrimaryResiduals) = -1*_oldPrimaryValues+_primaryValues | KEEP
        store BaseQNAcceleration::_oldPrimaryXTilde(_oldPrimaryXTilde) = _primaryValues | KEEP
        store BaseQNAcceleration::_oldXTilde(_oldXTilde) = _values | KEEP
        none call *::appendFront(_qr*)
    '''.replace('FULL', FULL).replace('DR', DR).replace('KEEP', '!{_firstIteration} | !{_firstTimeWindow} & !{_forceInitialRelaxation}').replace('        some ', '        '))
    sp(Q_ + 'removeMatrixColumn', '''
        call utils::removeColumnFromMatrix(_matrixV, arg0)
        call utils::removeColumnFromMatrix(_matrixW, arg0)
        for _matrixCols BREAKS: store BaseQNAcceleration::_matrixCols(elem(_matrixCols)) = -1*1+elem(_matrixCols) | {(-1*elem(_matrixCols)+-1*phi+arg0 < 0)}
        for _matrixCols BREAKS: call deque::erase(_matrixCols*, *elem(_matrixCols)*) | {(-1*elem(_matrixCols)+-1*phi+arg0 < 0)} & {(elem(_matrixCols) == 0)}
        final _nbDelCols = 1+_nbDelCols
    ''')
    sp(I_ + 'removeMatrixColumnRSLS', '''
        call utils::removeColumnFromMatrix(_matrixV_RSLS, arg0)
        call utils::removeColumnFromMatrix(_matrixW_RSLS, arg0)
        for _matrixCols_RSLS BREAKS: store IQNIMVJAcceleration::_matrixCols_RSLS(elem(_matrixCols_RSLS)) = -1*1+elem(_matrixCols_RSLS) | {(-1*elem(_matrixCols_RSLS)+-1*phi+arg0 < 0)}
        for _matrixCols_RSLS BREAKS: call deque::erase(_matrixCols_RSLS*, *elem(_matrixCols_RSLS)*) | {(-1*elem(_matrixCols_RSLS)+-1*phi+arg0 < 0)} & {(elem(_matrixCols_RSLS) == 0)}
    ''')
    sp(I_ + 'removeMatrixColumn', '''
        call utils::removeColumnFromMatrix(_Wtil, arg0) | !{_alwaysBuildJacobian} & !{_resetLS}
        call BaseQNAcceleration::removeMatrixColumn(this(), arg0)
    ''')
    sp(Q_ + 'applyFilter', '''
        F) call QRFactorization::applyFilter(_qrV, _singularityLimit, *, _matrixV) | !{(_filter == Acceleration::NOFILTER)}
        E) when for while: call BaseQNAcceleration::removeMatrixColumn(this(), *) | !{(_filter == Acceleration::NOFILTER)}
    '''.replace('        E) when for while: call BaseQNAcceleration::removeMatrixColumn(this(), *) | !{(_filter == Acceleration::NOFILTER)}\n', ''))

    # columns are removed from the last to the first
    n = 0
    for q in (Q_ + 'performAcceleration', Q_ + 'applyFilter', Q_ + 'iterationsConverged', I_ + 'specializedIterationsConverged', I_ + 'restartIMVJ'):
        f = fn(q)
        for e in f.events:
            if e.kind == 'call' and e.q.split('::')[-1] in ('removeMatrixColumn', 'removeMatrixColumnRSLS'):
                n += 1
                t = f.n(e.args[1])
                up = match('elem(*)', t) or match('idx(*, iv*)', t)
                for ph in terms(e.args[1], ('phi',)):
                    init, fin = f.carried(e, ph)
                    s = f.n(fin) if fin is not None else ''
                    up = up or match('1+phi', s) or 'operator++' in s and 'rbegin' not in f.n(init) and 'reverse' not in f.n(init)
                ctx.ob(R, '%s: columns are removed from the last to the first' % f.name.split('::')[-1], e.loops and not up, e.loc, 'the removed indices ascend, so that every later index is off by the columns removed before')
    ctx.need(R, n, 4)

    f = fn(Q_ + 'performAcceleration')
    QN = '(!{_firstIteration} | !{_firstTimeWindow} & !{_forceInitialRelaxation})'
    OLD = '!{_firstTimeWindow} & {(BaseQNAcceleration::getLSSystemCols(this()) < 1)} & {(_timeWindowsReused == 0)} & !{_forceInitialRelaxation}'
    FR = '{_firstIteration} & {(_timeWindowsReused == 0)} & !{_forceInitialRelaxation} & !{_firstTimeWindow}'
    ctx.spec(R, f, '''
        store BaseQNAcceleration::_matrixCols(_matrixCols) = _matrixColsBackup | OLD
        store BaseQNAcceleration::_matrixV(_matrixV) = _matrixVBackup | OLD
        store BaseQNAcceleration::_matrixW(_matrixW) = _matrixWBackup | OLD
        when call QRFactorization::reset(_qrV, out(Preconditioner::apply), BaseQNAcceleration::getPrimaryLSSystemRows(this()), *) | OLD
        store BaseQNAcceleration::_matrixColsBackup(_matrixColsBackup) = _matrixCols | SAVE
        store BaseQNAcceleration::_matrixVBackup(_matrixVBackup) = _matrixV | SAVE
        store BaseQNAcceleration::_matrixWBackup(_matrixWBackup) = _matrixW | SAVE
        call PlainObjectBase::resize(_matrixV, 0, 0) | FR
        call PlainObjectBase::resize(_matrixW, 0, 0) | FR
        X) call deque::clear(_matrixCols*) | FR
        Y) call deque::push_front(_matrixCols*, 0) | FR
        Z) call QRFactorization::reset(_qrV) | FR
        G) call QRFactorization::setGlobalRows(_qrV, BaseQNAcceleration::getPrimaryLSSystemRows(this())) | FR
        order X < Y
        order Z < G
        when store BaseQNAcceleration::_resetLS(_resetLS) = 1 | FR
        when store BaseQNAcceleration::_resetLS(_resetLS) = 1 | OLD
    '''.replace('SAVE', FR.replace(' & !{_firstTimeWindow}', '') + ' & {(0 < BaseQNAcceleration::getLSSystemCols(this()))} & <QN>').replace('OLD', OLD + ' & <QN>').replace('FR', FR).replace('<QN>', QN))
    # a new decomposition if the weights changed or the newest column could not be inserted, and then of the scaled matrix
    # (decided by the event conditions: the reset must be implied by either reason unless a filter rebuilds it)
    B = f.A.B
    resets = [e for e in f.events if e.kind == 'call' and e.q.endswith('QRFactorization::reset') and len(e.args) > 2]
    g = 0
    for e in resets:
        g = B.OR(g, e.g)
    need = f.atoms('_preconditioner._requireNewQR')
    diff = [a for a in f.atoms('(PlainObjectBase::cols(*) == _qrV._cols)')]
    ctx.need(R, len(need), 1)
    for pat, why in (('{_preconditioner._requireNewQR}', 'the weights changed'), ('!{(PlainObjectBase::cols(out(Preconditioner::apply)) == _qrV._cols)}', 'a column could not be inserted')):
        ok = bool(f.atoms(pat.strip('!{}'))) and B.implies(B.AND(f.cond(pat), B.AND(f.cond(QN), f.cond('!{(_filter == Acceleration::QR2FILTER)} & !{(_filter == Acceleration::QR3FILTER)}'))), g)
        ctx.ob(R, 'performAcceleration: V is decomposed anew if %s' % why, ok, resets[0].loc if resets else '', 'no such decomposition')
    f2 = fn(Q_ + 'iterationsConverged')
    RM = '!{(_timeWindowsReused == 0)} & {(_timeWindowsReused < size(_matrixCols))}'
    ALLC = '{(_timeWindowsReused == 0)} & {_forceInitialRelaxation}'
    ctx.spec(R, f2, '''
        call deque::pop_front(_matrixCols) | !{(size(_matrixCols) == 0)} & {(*front(_matrixCols) == 0)}
        call PlainObjectBase::resize(_matrixV, 0, 0) | ALLC
        call PlainObjectBase::resize(_matrixW, 0, 0) | ALLC
        Z) call QRFactorization::reset(_qrV) | ALLC
        G) call QRFactorization::setGlobalRows(_qrV, BaseQNAcceleration::getPrimaryLSSystemRows(this())) | ALLC
        X) call deque::clear(_matrixCols*) | ALLC
        for [0, *back(_matrixCols)): call utils::removeColumnFromMatrix(_matrixV, -1*1+PlainObjectBase::cols(_matrixV)) | RM
        for [0, *back(_matrixCols)): call utils::removeColumnFromMatrix(_matrixW, -1*1+PlainObjectBase::cols(_matrixW)) | RM
        for [0, *back(_matrixCols)): call QRFactorization::popBack(_qrV) | RM
        P) call deque::pop_back(_matrixCols*) | RM
        Y) call deque::push_front(*_matrixCols*, 0)
        order Z < G
        order X < Y
        order P < Y
    '''.replace('RM', RM).replace('ALLC', ALLC))

    # ---- steps
    R = 'steps of the quasi-Newton acceleration'
    RELAX = '{_firstIteration} & ({_firstTimeWindow} | {_forceInitialRelaxation})'
    sp(f, '''
        I) call BaseQNAcceleration::initializeVectorsAndPreconditioner(this(), arg0, arg1) | {_firstIteration} & {_firstTimeWindow}
        M) call TimeGrids::moveTimeGridToNewWindow(_timeGrids, arg0) | {_firstIteration}
        N) call TimeGrids::moveTimeGridToNewWindow(_primaryTimeGrids, arg0) | {_firstIteration}
        C) call BaseQNAcceleration::concatenateCouplingData(this(), _values, _oldValues, arg0, _dataIDs, _timeGrids, arg1)
        D) call BaseQNAcceleration::concatenateCouplingData(this(), _primaryValues, _oldPrimaryValues, arg0, _primaryDataIDs, _primaryTimeGrids, arg1)
        bind ALLNEW = C.out0
        bind PRINEW = D.out0
        U) call BaseQNAcceleration::updateDifferenceMatrices(this(), arg0)
        store BaseQNAcceleration::_oldPrimaryXTilde(_oldPrimaryXTilde) = $PRINEW | RELAX
        store BaseQNAcceleration::_oldXTilde(_oldXTilde) = $ALLNEW | RELAX
        store BaseQNAcceleration::_oldPrimaryResiduals(_oldPrimaryResiduals) = _primaryResiduals | RELAX
        X) call Acceleration::applyRelaxation(_initialRelaxation, arg0, arg1) | RELAX
        P) call Preconditioner::update(_preconditioner, 0, $PRINEW, _primaryResiduals) | <QN>
        F) call BaseQNAcceleration::applyFilter(this()) | <QN>
        V) call Preconditioner::revert(_preconditioner, _matrixV) | <QN>
        Q) call BaseQNAcceleration::computeQNUpdate(this(), *Zero(size($ALLNEW))*) | <QN>
        bind STEP = Q.out0
        A) call MatrixBase::operator+=($ALLNEW, $STEP) | <QN>
        L) call BaseQNAcceleration::onBoundViolationsClamp(this(), *, arg0, *checkBoundViolation(this(), *, arg0, arg1), arg1) | <QN> & BOUNDS & {(_onBoundViolation == OnBoundViolation::Clamp)} & !{(size(*checkBoundViolation*) == 0)}
        S) call BaseQNAcceleration::updateCouplingData(this(), arg0, arg1) | <QN>
        order I < M < C < U < X
        order N < D < U < P < F < Q < A < S
        order V < Q
        order A < L < S
        K) call BaseQNAcceleration::checkBoundViolation(this(), *, arg0, arg1) | <QN> & BOUNDS
        Y) call IntraComm::allreduceSum(size(*checkBoundViolation*), *) | <QN> & BOUNDS & ({(_onBoundViolation == OnBoundViolation::Discard)} | {(_onBoundViolation == OnBoundViolation::ScaleToBound)})
        bind VIOLATIONS = Y.out1
        E) call MatrixBase::operator-=(*, $STEP) | <QN> & BOUNDS & {(_onBoundViolation == OnBoundViolation::Discard)} & {(0 < $VIOLATIONS)}
        H) call BaseQNAcceleration::onBoundViolationsScale(this(), *, arg0, *checkBoundViolation(this(), *, arg0, arg1), $STEP, arg1) | <QN> & BOUNDS & {(_onBoundViolation == OnBoundViolation::ScaleToBound)} & {(0 < $VIOLATIONS)}
        order A < K < Y < E < S
        order Y < H < S
        throws | <QN> & {std::isnan(IntraComm::l2norm(*))}
        final _firstIteration = 0
        final its = 1+its
    '''.replace('BOUNDS', '!{(size(_idsWithBounds) == 0)} & !{(_onBoundViolation == OnBoundViolation::Ignore)}').replace('RELAX', RELAX).replace('<QN>', QN))
    fl = [e for e in f.events if e.kind == 'call' and e.q.endswith('::applyFilter')]
    after = 0
    for e in f.events:
        if e.kind == 'call' and e.q.endswith('Preconditioner::revert') and not e.loops and fl and e.seq > fl[-1].seq and f.n(e.args[1]).startswith('_matrixV'):
            after = B.OR(after, e.g)
    ctx.ob(R, 'performAcceleration: the scaling of V is undone once the columns are filtered', bool(fl) and all(B.implies(e.g, after) for e in fl), fl[0].loc if fl else '', 'V stays scaled')
    sp(f2, '''
        I) call BaseQNAcceleration::initializeVectorsAndPreconditioner(this(), arg0, arg1) | {_firstIteration} & {_firstTimeWindow}
        M) call TimeGrids::moveTimeGridToNewWindow(_timeGrids, arg0) | {_firstIteration}
        N) call TimeGrids::moveTimeGridToNewWindow(_primaryTimeGrids, arg0) | {_firstIteration}
        C) call BaseQNAcceleration::concatenateCouplingData(this(), _values, _oldValues, arg0, _dataIDs, _timeGrids, arg1)
        D) call BaseQNAcceleration::concatenateCouplingData(this(), _primaryValues, _oldPrimaryValues, arg0, _primaryDataIDs, _primaryTimeGrids, arg1)
        bind PRINEW = D.out0
        U) call BaseQNAcceleration::updateDifferenceMatrices(this(), arg0)
        S) call BaseQNAcceleration::specializedIterationsConverged(this(), arg0)
        P) call Preconditioner::update(_preconditioner, 1, $PRINEW, _primaryResiduals)
        order I < M < C < U < S < P
        order I < N < D < U
        store BaseQNAcceleration::_firstTimeWindow(_firstTimeWindow) = 0 | !{_firstIteration}
        final its = 0
        final tWindows = 1+tWindows
        final _firstIteration = 1
    ''')
    sp(Q_ + 'initialize', '''
        K) call deque::clear(_matrixCols)
        L) call deque::push_front(_matrixCols*, 0)
        D) call vector::clear(_dataIDs)
        B) call vector::clear(_idsWithBounds)
        E) for arg0: call vector::*_back(_dataIDs*, elem(arg0).first)
        G) for arg0: call vector::*_back(_idsWithBounds*, elem(arg0).first) | *
        call Acceleration::checkDataIDs(this(), arg0)
        order K < L
        order D < E
        final _firstIteration = 1
        final _firstTimeWindow = 1
    '''.replace("        G) for arg0: call vector::*_back(_idsWithBounds*, elem(arg0).first) | *\n", ''))
    sp(Q_ + 'clampToBounds', '''
        L) for [0, MapBase::rows(arg0)): store lv(idx(*, tup(row, (iv)))) = MatrixBase::cwiseMax(*, idx(arg1, iv)) | {idx(arg1, iv)}
        U) for [0, MapBase::rows(arg0)): store lv(idx(*, tup(row, (iv)))) = MatrixBase::cwiseMin(*, idx(arg2, iv)) | {idx(arg2, iv)}
    ''')

    # ---- preconditioner
    R = 'weights and their inverses'
    for q, w in (('apply', '_weights'), ('revert', '_invWeights')):
        for F in ctx.funcs(P_ + q):
            f = ctx.analyse(F, policy=keep)
            st = [e for e in f.events if e.kind == 'store' and e.loops]
            for e in st:
                s = f.n(e.val)
                ctx.ob(R, '%s(%s): multiplies by %s' % (q, ', '.join(F.d.ps), w), ('*idx(%s, ' % w in s or 'idx(%s, ' % w in s and '*' in s) and (w == '_invWeights' or '_invWeights' not in s), e.loc, 'stores %s' % s)
                m = re.search(r'idx\(%s, (iv\d?)\)' % w, s)
                tr = bool(f.atoms('arg1')) and B is not None and f.A.B.implies(e.g, f.cond('{arg1}'))
                if m and 'tup(operator(), (' in s:
                    want = re.search(r'tup\(operator\(\), \((iv\d?), (iv\d?)\)\)', s)
                    ctx.ob(R, '%s(%s): %s are scaled' % (q, ', '.join(F.d.ps), 'columns' if tr else 'rows'), bool(want) and m.group(1) == want.group(2 if tr else 1), e.loc, 'stores %s' % s)
                elif m:
                    ctx.ob(R, '%s(%s): every entry is scaled by its own weight' % (q, ', '.join(F.d.ps)), 'idx(arg0, %s)' % m.group(1) in s, e.loc, 'stores %s' % s)
                else:
                    ctx.ob(R, '%s(%s): the weight of the entry' % (q, ', '.join(F.d.ps)), False, e.loc, 'stores %s' % s)
            ctx.need(R, len(st), 1)
    # every store into the weights of a sub-vector comes with the store of the inverse
    n = 0
    for F in sorted(ctx.P.funcs.values(), key=lambda F: (F.file or '', F.line or 0)):
        if not re.match(re.escape(A_) + r'impl::\w*Preconditioner::[^:]+$', F.d.q) or F.dep or F.body is None or F.d.n in ('Preconditioner', '~Preconditioner'):
            continue
        f = ctx.analyse(F, policy=keep)
        w = [e for e in f.events if e.kind == 'store' and e.q.endswith('::_weights')]
        v = [e for e in f.events if e.kind == 'store' and e.q.endswith('::_invWeights')]
        for a, b, rel in [(x, y, 0) for x in w for y in [None]] + [(y, None, 1) for y in v]:
            pos = f.n(a.args[0]).replace('_weights', 'W').replace('_invWeights', 'W')
            val = f.n(a.val)
            inv = val[len('(1 / '):-1] if val.startswith('(1 / ') else '(1 / %s)' % val
            mates = [x for x in (v if rel == 0 else w) if f.n(x.args[0]).replace('_invWeights', 'W').replace('_weights', 'W') == pos and x.g == a.g]
            n += 1
            ok = any(f.n(x.val) == inv for x in mates)
            ctx.ob(R, '%s: %s' % (f.name.split('acceleration::impl::')[-1], 'a weight is stored with its inverse' if not rel else 'an inverse is stored with its weight'), ok, a.loc, 'stored: %s; the other one: %s' % (val, ', '.join(f.n(x.val) for x in mates) or 'not stored'))
            ctx.ob(R, '%s: at the position of the sub-vector' % f.name.split('acceleration::impl::')[-1], match('idx(*W*, idx(_subVectorOffsets, iv*)+iv)', pos), a.loc, pos)
            fl = [x for x in f.events if x.kind == 'store' and x.q.endswith('::_requireNewQR') and f.n(x.val) == '1']
            if f.name.endswith('_update_'):
                og = a.g
                ctx.ob(R, '%s: a new decomposition is asked for' % f.name.split('acceleration::impl::')[-1], any(x.seq > a.seq or True for x in fl) and bool(fl), a.loc, 'V stays decomposed with the old weights')
    ctx.need(R, n, 8)
    sp(P_ + 'initialize', '''
        final _subVectorSizes = arg0
        call vector::resize(_weights, *accumulate(begin(arg0), end(arg0), 0)*, 1)
        call vector::resize(_invWeights, *accumulate(begin(arg0), end(arg0), 0)*, 1)
        call vector::resize(_subVectorOffsets, size(arg0), 0)
        call std::partial_sum(*, *, *)
    ''')
    sp(P_ + 'update', '''
        U) call Preconditioner::_update_(this(), arg0, arg1, arg2) | !{_frozen}
        store Preconditioner::_nbNonConstTimeWindows(_nbNonConstTimeWindows) = 1+_nbNonConstTimeWindows | !{_frozen} & {arg0}
        store Preconditioner::_frozen(_frozen) = 1 | !{_frozen} & {arg0} & {(0 < _maxNonConstTimeWindows)} & !{(1 < -1*_nbNonConstTimeWindows+_maxNonConstTimeWindows)}
    ''')
    sp(P_ + 'newQRfulfilled', 'final _requireNewQR = 0')
    sp(P_ + 'requireNewQR', 'ret return() = _requireNewQR')

    # ---- QR decomposition
    R = 'QR decomposition'
    sp(F_ + 'pushFront', 'call QRFactorization::insertColumn(this(), 0, arg0, 0)')
    sp(F_ + 'pushBack', 'call QRFactorization::insertColumn(this(), _cols, arg0, 0)')
    sp(F_ + 'popFront', 'call QRFactorization::deleteColumn(this(), 0)')
    sp(F_ + 'popBack', 'call QRFactorization::deleteColumn(this(), -1*1+_cols)')
    sp(F_ + 'setGlobalRows', 'final _globalRows = arg0')
    sp(F_ + 'cols', 'ret return() = _cols')
    CLEAR = '''
        call PlainObjectBase::resize(_Q, 0, 0)
        call PlainObjectBase::resize(_R, 0, 0)
    '''
    sp(F_ + 'reset', CLEAR + '''
        final _cols = 0
        final _rows = 0
        final _globalRows = 0
    ''', nparams=0)
    for F in ctx.funcs(F_ + 'reset'):
        if F.d.ps and len(F.d.ps) > 4 and F.params[1].t == 'int':
            ctx.spec(R, ctx.analyse(F, policy=keep), CLEAR + '''
                store QRFactorization::_cols(_cols) = 0
                store QRFactorization::_rows(_rows) = PlainObjectBase::rows(arg0)
                final _globalRows = arg1
                A) for [0, PlainObjectBase::cols(arg0)): call QRFactorization::insertColumn(this(), phi, VectorXd(DenseBase::col(arg0, iv)), 0)
                for [0, PlainObjectBase::cols(arg0)): call vector::push_back(*, iv) | !{QRFactorization::insertColumn(*)}
            ''')
    sp(F_ + 'resetFilter', CLEAR + '''
        store QRFactorization::_cols(_cols) = 0
        store QRFactorization::_rows(_rows) = PlainObjectBase::rows(arg2)
        for [0, PlainObjectBase::cols(arg2)): call QRFactorization::insertColumn(this(), _cols, VectorXd(DenseBase::col(arg2, iv)), arg0)
        for [0, PlainObjectBase::cols(arg2)): call vector::push_back(arg1, iv) | !{QRFactorization::insertColumn(*)}
    ''')
    sp(F_ + 'deleteColumn', '''
        L) for [arg0, -1*1+_cols): call QRFactorization::computeReflector(this(), *, idx(_R, tup(operator(), (iv, 1+iv))), idx(_R, tup(operator(), (1+iv, 1+iv))))
        M) for [arg0, -1*1+_cols): call QRFactorization::applyReflector(this(), out(QRFactorization::computeReflector), 2*1+iv, _cols, *row(_R, iv)*, *row(_R, 1+iv)*)
        N) for [arg0, -1*1+_cols): call QRFactorization::applyReflector(this(), out(QRFactorization::computeReflector), 0, _rows, *col(_Q, iv)*, *col(_Q, 1+iv)*)
        for [arg0, -1*1+_cols) >> [0, 1+iv): store QRFactorization::_R(idx(_R, tup(operator(), (iv, iv1)))) = DenseCoeffsBase::operator()(_R, iv, 1+iv1)
        R) call PlainObjectBase::conservativeResize(_R, -1*1+_cols, -1*1+_cols)
        S) call PlainObjectBase::conservativeResize(_Q, _rows, -1*1+_cols)
        final _cols = -1*1+_cols
        order L < M < R
        order L < N < S
    ''')
    f = fn(F_ + 'insertColumn')
    ctx.spec(R, f, '''
        store QRFactorization::_rows(_rows) = size(arg1) | {(_cols == 0)}
        O) call QRFactorization::orthogonalize(this(), arg1, *, 0, _cols)
        when store QRFactorization::_R(idx(_R, tup(col, (_cols)))) = DenseBase::Zero(1+_cols) | {RET}
        store QRFactorization::_Q(idx(_Q, tup(col, (_cols)))) = arg1 | DONE
    '''.replace('        when store QRFactorization::_R(idx(_R, tup(col, (_cols)))) = DenseBase::Zero(1+_cols) | {RET}\n', '').replace('        store QRFactorization::_Q(idx(_Q, tup(col, (_cols)))) = arg1 | DONE\n', ''))
    # a refused column leaves the decomposition as it was
    Bf = f.A.B
    bad = [e for e in f.events if e.kind == 'ret' and f.n(e.val) == '0']
    good = [e for e in f.events if e.kind == 'ret' and f.n(e.val) == '1']
    ctx.need(R, min(len(bad), 1) + min(len(good), 1), 2)
    gb = 0
    for e in bad:
        gb = Bf.OR(gb, e.g)
    for e in f.events:
        nm = e.q.split('::')[-1]
        a0 = f.n(e.args[0]) if e.args else ''
        if e.kind == 'store' and nm in ('_Q', '_R') or e.kind == 'call' and nm in ('conservativeResize', 'resize') and re.match(r'_[QR]\b', a0):
            ctx.ob(R, 'insertColumn: Q and R are not touched if the column is refused', Bf.AND(e.g, gb) == 0, e.loc, '%s is changed though false is returned' % a0)
    fin = [e for e in f.events if e.kind == 'store' and e.q.endswith('::_cols')]
    g = 0
    for e in fin:
        if f.n(e.val) == '_cols':
            g = Bf.OR(g, e.g)
    ctx.ob(R, 'insertColumn: a refused column is not counted', Bf.implies(gb, g), fin[0].loc if fin else '', 'the column counter keeps the refused column')
    f = fn(F_ + 'applyFilter')
    ctx.spec(R, f, '''
        A) call vector::resize(arg1, 0) || A) call vector::clear(arg1)
        S) call std::sort(*begin(*), *end(*))
        when call QRFactorization::resetFilter(this(), arg0, arg1, arg2) | !{(_filter == Acceleration::QR1FILTER)} & !{(_filter == Acceleration::QR1FILTER_ABS)} & {(_filter == Acceleration::QR2FILTER)}
        when call QRFactorization::resetFilter(this(), arg0, arg1, arg2) | !{(_filter == Acceleration::QR1FILTER)} & !{(_filter == Acceleration::QR1FILTER_ABS)} & !{(_filter == Acceleration::QR2FILTER)} & {(_filter == Acceleration::QR3FILTER)} & {_computeQR2Filter}
    ''')
    # a loop over the columns of an empty decomposition visits none of them
    n = 0
    for e in f.events:
        if e.kind == 'call' and e.q.endswith('operator()') and re.match(r'_R\b', f.n(e.args[0])) and e.loops:
            for t in terms(e.args[1], ('phi',)):
                init, fin = f.carried(e, t)
                s = f.n(init) if init is not None else ''
                if match('-1*1+_cols', s):
                    n += 1
                    ctx.ob(R, 'applyFilter: a downward loop over the columns ends before the first one', bool(f.atoms('(0 < phi)') and Bf is not None and f.A.B.implies(e.g, f.cond('{(0 < phi)}'))) or bool(f.atoms('(phi < 0)') and f.A.B.implies(e.g, f.cond('!{(phi < 0)}'))), e.loc, 'column -1 is read if there are no columns')

    # ---- multi vector variant
    R = 'multi-vector variant'
    sp(I_ + 'computeQNUpdate', '''
        call IQNIMVJAcceleration::computeNewtonUpdate(this(), arg0) | {_alwaysBuildJacobian}
        call IQNIMVJAcceleration::computeNewtonUpdateEfficient(this(), arg0) | !{_alwaysBuildJacobian}
    ''')
    WORK = '!{_firstIteration} & (!{_alwaysBuildJacobian} | {_imvjRestart})'
    FW = '({(PlainObjectBase::cols(_Wtil) == _maxIterationsUsed)} | {(BaseQNAcceleration::getLSSystemRows(this()) < PlainObjectBase::cols(_Wtil))})'
    sp(I_ + 'updateDifferenceMatrices', '''
        A) call BaseQNAcceleration::updateDifferenceMatrices(this(), arg0)
        M) for _WtilChunk: call MatrixBase::operator+=(phi, elem(_WtilChunk)*out(ParallelMatrixOperations::multiply)) | !{_firstIteration} & {_imvjRestart} || M) for _WtilChunk: call MatrixBase::operator+=(phi, idx(_WtilChunk, iv)*out(ParallelMatrixOperations::multiply)) | !{_firstIteration} & {_imvjRestart}
        for _WtilChunk: call ParallelMatrixOperations::multiply(_parMatrixOps, idx(_pseudoInverseChunk, iv), *col(_matrixV, 0)*, *) | !{_firstIteration} & {_imvjRestart}
        call ParallelMatrixOperations::multiply(_parMatrixOps, _oldInvJacobian, *col(_matrixV, 0)*, *, _dimOffsets, *) | !{_firstIteration} & !{_imvjRestart} & !{_alwaysBuildJacobian}
        N) call DenseBase::operator*=(*, -1) | WORK
        P) call MatrixBase::operator+=(*, *) | WORK
        V) call utils::appendFront(_matrixV_RSLS, *col(_matrixV, 0)*) | !{_firstIteration} & {_imvjRestart} & {(_imvjRestartType == IQNIMVJAcceleration::RS_LS)}
        call utils::appendFront(_matrixW_RSLS, *col(_matrixW, 0)*) | !{_firstIteration} & {_imvjRestart} & {(_imvjRestartType == IQNIMVJAcceleration::RS_LS)}
        store IQNIMVJAcceleration::_matrixCols_RSLS(idx(_matrixCols_RSLS, 0)) = 1+idx(_matrixCols_RSLS, 0) | !{_firstIteration} & {_imvjRestart} & {(_imvjRestartType == IQNIMVJAcceleration::RS_LS)}
        X) call utils::appendFront(_Wtil, *) | WORK & !FW
        Y) call utils::shiftSetFirst(_Wtil, *) | WORK & FW
        order A < M
        order M < N < P < X
        order P < Y
    '''.replace('        P) call MatrixBase::operator+=(*, *) | WORK\n', '').replace('N < P < X', 'N < X').replace('order P < Y', 'order N < Y').replace('WORK', WORK).replace('FW', FW))
    sp(I_ + 'buildJacobian', '''
        P) call IQNIMVJAcceleration::pseudoInverse(this(), *)
        W) call IQNIMVJAcceleration::buildWtil(this()) | {_resetLS}
        M) call ParallelMatrixOperations::multiply(_parMatrixOps, _Wtil, out(IQNIMVJAcceleration::pseudoInverse), _invJacobian, _dimOffsets, BaseQNAcceleration::getLSSystemRows(this()), BaseQNAcceleration::getLSSystemCols(this()), BaseQNAcceleration::getPrimaryLSSystemRows(this()), *)
        store IQNIMVJAcceleration::_invJacobian(_invJacobian) = _oldInvJacobian+out(ParallelMatrixOperations::multiply)
        order P < M
        order W < M
    ''')
    sp(I_ + 'buildWtil', '''
        for _WtilChunk: call ParallelMatrixOperations::multiply(_parMatrixOps, idx(_pseudoInverseChunk, iv), _matrixV, *) | {_imvjRestart}
        M) for _WtilChunk: call MatrixBase::operator+=(_Wtil*, elem(_WtilChunk)*out(ParallelMatrixOperations::multiply)) | {_imvjRestart} || M) for _WtilChunk: call MatrixBase::operator+=(_Wtil*, idx(_WtilChunk, iv)*out(ParallelMatrixOperations::multiply)) | {_imvjRestart}
        O) call ParallelMatrixOperations::multiply(_parMatrixOps, _oldInvJacobian, _matrixV, *, _dimOffsets, *) | !{_imvjRestart}
        store IQNIMVJAcceleration::_Wtil(_Wtil) = *operator*=(-1)+_matrixW || store IQNIMVJAcceleration::_Wtil(_Wtil) = -1*_Wtil+_matrixW
        final _resetLS = 0
    ''')
    f = fn(I_ + 'computeNewtonUpdateEfficient')
    ctx.spec(R, f, '''
        P) call IQNIMVJAcceleration::pseudoInverse(this(), *)
        W) call IQNIMVJAcceleration::buildWtil(this()) | {_resetLS}
        call ParallelMatrixOperations::multiply(_parMatrixOps, out(IQNIMVJAcceleration::pseudoInverse), *operator-(_primaryResiduals)*, *)
        for _WtilChunk: call ParallelMatrixOperations::multiply(_parMatrixOps, idx(_pseudoInverseChunk, iv), *operator-(_primaryResiduals)*, *) | {_imvjRestart}
        call ParallelMatrixOperations::multiply(_parMatrixOps, _oldInvJacobian, *operator-(_primaryResiduals)*, *, _dimOffsets, *) | !{_imvjRestart}
        U) call MatrixBase::operator+=(*, _Wtil*out(ParallelMatrixOperations::multiply))
        Z) call PlainObjectBase::conservativeResize(_Wtil, 0, 0) | {_firstIteration} & {(_timeWindowsReused == 0)} & !{_forceInitialRelaxation}
        when store BaseQNAcceleration::_resetLS(_resetLS) = 1 | {_firstIteration} & {(_timeWindowsReused == 0)} & !{_forceInitialRelaxation}
        order W < U < Z
    ''')
    sp(I_ + 'specializedIterationsConverged', '''
        [%s]
        A) call Preconditioner::apply(_preconditioner, _matrixV) | WORK
        F) call BaseQNAcceleration::applyFilter(this()) | WORK
        V) call Preconditioner::revert(_preconditioner, _matrixV) | WORK
        P) call IQNIMVJAcceleration::pseudoInverse(this(), *) | {_imvjRestart}
        W) call vector::push_back(_WtilChunk, _Wtil) | {_imvjRestart}
        X) call vector::push_back(_pseudoInverseChunk, out(IQNIMVJAcceleration::pseudoInverse)) | {_imvjRestart}
        S) call IQNIMVJAcceleration::restartIMVJ(this()) | {_imvjRestart} & !{(-1 < -1*size(_WtilChunk*)+_chunkSize)}
        J) call IQNIMVJAcceleration::buildJacobian(this()) | !{_imvjRestart} & !{_alwaysBuildJacobian}
        store IQNIMVJAcceleration::_oldInvJacobian(_oldInvJacobian) = _invJacobian | !{_imvjRestart}
        order A < F < V < P < X < S
        order V < J
        order W < S
        call PlainObjectBase::resize(_matrixV_RSLS, 0, 0) | LS & {(_RSLSreusedTimeWindows == 0)}
        call PlainObjectBase::resize(_matrixW_RSLS, 0, 0) | LS & {(_RSLSreusedTimeWindows == 0)}
        call deque::clear(*_matrixCols_RSLS*) | LS & {(_RSLSreusedTimeWindows == 0)}
        for [0, *back(*_matrixCols_RSLS*)): call utils::removeColumnFromMatrix(_matrixV_RSLS, -1*1+PlainObjectBase::cols(_matrixV_RSLS)) | LS & !{(_RSLSreusedTimeWindows == 0)} & {(_RSLSreusedTimeWindows < size(*_matrixCols_RSLS*))}
        for [0, *back(*_matrixCols_RSLS*)): call utils::removeColumnFromMatrix(_matrixW_RSLS, -1*1+PlainObjectBase::cols(_matrixW_RSLS)) | LS & !{(_RSLSreusedTimeWindows == 0)} & {(_RSLSreusedTimeWindows < size(*_matrixCols_RSLS*))}
        call deque::pop_back(*_matrixCols_RSLS*) | LS & !{(_RSLSreusedTimeWindows == 0)} & {(_RSLSreusedTimeWindows < size(*_matrixCols_RSLS*))}
        call deque::push_front(*_matrixCols_RSLS*, 0) | LS
    '''.replace('[%s]', '[%s]' % R).replace('LS &', '{(_imvjRestartType == IQNIMVJAcceleration::RS_LS)} &').replace('| LS\n', '| {(_imvjRestartType == IQNIMVJAcceleration::RS_LS)}\n').replace('WORK', '(!{_alwaysBuildJacobian} | {_imvjRestart})'))
    f = fn(I_ + 'restartIMVJ')
    Bf = f.A.B
    # the two chunks hold the factors of the same windows
    pair = {'_WtilChunk': 0, '_pseudoInverseChunk': 0}
    per = {}
    for e in f.events:
        if e.kind == 'call' and e.q.startswith('precice') is False and e.q.split('::')[-1] in ('clear', 'erase', 'push_back', 'emplace_back', 'pop_back', 'insert'):
            for v in pair:
                if re.match(r'(lout\()?%s\b' % v, f.n(e.args[0])):
                    k = (e.q.split('::')[-1].replace('emplace', 'push'), len(e.loops))
                    per.setdefault(k, {}).setdefault(v, 0)
                    per[k][v] = Bf.OR(per[k][v], e.g)
    ctx.need(R, len(per), 3)
    for k, d in sorted(per.items()):
        ctx.ob(R, 'restartIMVJ: %s on both chunks' % k[0], len(d) == 2 and len(set(d.values())) == 1, '%s:%s' % (f.F.file, f.F.line), 'only on %s' % ', '.join(d))
    sp(I_ + 'pseudoInverse', '''
        for [0, PlainObjectBase::rows(_qrV._Q)): store lv(idx($[arg0], tup(col, (iv)))) = TriangularViewImpl::solve(*, *row(_qrV._Q, iv)*)
        call Preconditioner::apply(_preconditioner, arg0*, 1)
    ''')
    R = 'least-squares variant'
    f = fn(A_ + 'IQNILSAcceleration::computeQNUpdate')
    ctx.spec(R, f, '''
        A) call Preconditioner::apply(_preconditioner, _primaryResiduals)
        bind SC = A.out0
        V) call Preconditioner::revert(_preconditioner, $SC)
        N) call DenseBase::operator*=(*$SC*, -1) || N) store * = *$SC*
        S) call IntraComm::reduceSum(*, *) | {IntraComm::isParallel()}
        B) call IntraComm::broadcast(*) | {IntraComm::isParallel()}
        order A < V
        order N < S < B
        store parameter(arg0) = *_matrixW* || store parameter(arg0) = _matrixW**
    ''')
