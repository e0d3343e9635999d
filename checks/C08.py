"""Time windows and iterations: simulated time only moves by the solver's time steps, a time window is completed exactly
when it was explicitly coupled or has converged, is repeated from its start otherwise, and the coupling ends when the
maximum time or the maximum number of windows is reached. Gated path summaries of the coupling-scheme base, the time
handler, the convergence measurement and the composition are compared with this automaton."""
from check import *
from api import *

MIN = 150
B_ = 'precice::cplscheme::BaseCouplingScheme::'
H_ = 'precice::cplscheme::impl::TimeHandler::'
IMP = '{(_couplingMode == BaseCouplingScheme::Implicit)}'
NOW = '{math::equals(_timeWindowSize, -1, 1e-14)}'
WEND = '(' + NOW + ' | {TimeHandler::reachedEndOfWindow(_time, _timeWindowSize)})'
GOING = '(!{TimeHandler::reachedEnd(_time)} & ({(_maxTimeWindows == -1)} | !{(_maxTimeWindows < _timeWindows)}))'
CONV = '{_hasConverged}'
PRIM = '!{IntraComm::isSecondary()}'


def sub(s):
    for k, v in (('WEND', WEND), ('IMP', IMP), ('CONV', CONV), ('NOW', NOW), ('GOING', GOING), ('PRIM', PRIM)):
        s = re.sub(r'\b%s\b' % k, lambda m: v, s)
    return s


def run(ctx):
    sp = lambda r, f, t: ctx.spec(r, f, sub(t))
    sp('first phase', B_ + 'firstExchange', '''
        final _isTimeWindowComplete = 0
        final _timeWindows = 1+_timeWindows | WEND
        x) call BaseCouplingScheme::exchangeFirstData(this()) | WEND
        n) store *::_timeWindows(*) = 1+_timeWindows | WEND
        none call TimeHandler::*omplete*
        none call TimeHandler::reset*
        none call TimeHandler::progress*
    ''')
    sp('second phase', B_ + 'secondExchange', '''
        x) call BaseCouplingScheme::exchangeSecondData(this()) | WEND
        final _isTimeWindowComplete := WEND & (!IMP | CONV) | !WEND & {_isTimeWindowComplete}
        final _timeWindows = _timeWindows | !WEND | !IMP | CONV
        when final _timeWindows = -1*1+_timeWindows | WEND & IMP & !CONV
        final _totalIterations = 1+_totalIterations | WEND & IMP
        final _iterations = 1+_iterations | WEND & IMP & !CONV
        final _iterations = 1 | WEND & IMP & CONV
        c) call TimeHandler::completeTimeWindow(_time, _timeWindowSize) | WEND & (!IMP | CONV)
        r) call TimeHandler::resetProgress(_time) | WEND & IMP & !CONV
        none call TimeHandler::resetTo*
        none call TimeHandler::progressBy*
        w) store *::_timeWindowSize(*) = _nextTimeWindowSize | WEND
        l1) call TXTTableWriter::writeData(_iterationsWriter, "TimeWindow", -1*1+_timeWindows) | PRIM & WEND & IMP & CONV
        l2) call TXTTableWriter::writeData(_iterationsWriter, "TotalIterations", _totalIterations) | PRIM & WEND & IMP & CONV
        l3) call TXTTableWriter::writeData(_iterationsWriter, "Iterations", _iterations) | PRIM & WEND & IMP & CONV
        l4) call TXTTableWriter::writeData(_iterationsWriter, "Convergence", *) | PRIM & WEND & IMP & CONV
        a) call Acceleration::writeLogEntries(_acceleration, _iterationsWriter) | PRIM & WEND & IMP & CONV & !{_doesFirstStep} & {_acceleration}
        order x < c < w
        order x < r < w
        order x < l1 < l2 < l3 < l4 < a
        fresh c _hasConverged after x
        fresh r _hasConverged after x
        fresh w _nextTimeWindowSize after x
    ''')
    sp('progress', B_ + 'addComputedTime', '''
        p) call TimeHandler::progressBy(_time, arg0)
        returns | NOW | {TimeHandler::reachedEndOfWindow(_time, _timeWindowSize)}
        throws | NOW & !{(arg0 < numeric_limits::max())} | !{math::greaterEquals(*)}
        none call TimeHandler::reset*
    ''')
    sp('progress', B_ + 'isCouplingOngoing', 'returns | GOING')
    sp('progress', B_ + 'getNextTimeStepMaxSize', '''
        ret return() = 0 | !GOING
        ret return() = TimeHandler::untilWindowEnd(_time, _timeWindowSize) | GOING & !NOW
        ret return() = TimeHandler::untilEnd(_time) | GOING & NOW
    ''')
    ctx.spec('progress', B_ + 'isTimeWindowComplete', 'returns | {_isTimeWindowComplete}')
    ctx.spec('progress', B_ + 'hasConverged', 'returns | {_hasConverged}')
    ctx.spec('progress', B_ + 'getTimeWindows', 'ret return() = _timeWindows')
    ctx.spec('progress', B_ + 'getTime', 'ret return() = TimeHandler::time(_time)')
    ctx.spec('progress', B_ + 'getTimeWindowStart', 'ret return() = TimeHandler::windowStart(_time)')
    ctx.spec('progress', B_ + 'getTimeWindowSize', 'ret return() = _timeWindowSize')
    sp('progress', B_ + 'hasTimeWindowSize', 'returns | !NOW')
    ctx.spec('progress', B_ + 'setTimeWindowSize', 'final _timeWindowSize = arg0')
    ctx.spec('progress', B_ + 'setNextTimeWindowSize', 'final _nextTimeWindowSize = arg0')
    ctx.spec('progress', B_ + 'hasDataBeenReceived', 'returns | {_hasDataBeenReceived}')
    ctx.spec('progress', B_ + 'isImplicitCouplingScheme', 'returns | ' + IMP)
    ctx.spec('progress', B_ + 'isExplicitCouplingScheme', 'returns | {(_couplingMode == BaseCouplingScheme::Explicit)}')
    sp('initialisation', B_ + 'initialize', '''
        s) call BaseCouplingScheme::initializeReceiveDataStorage(this())
        t) call TimeHandler::resetTo(_time, 0)
        w) store *::_timeWindows(*) = 1
        h) store *::_hasDataBeenReceived(*) = 0
        i) for _allData: call CouplingData::storeIteration(elem(_allData).second) | IMP
        a) call Acceleration::initialize(_acceleration, BaseCouplingScheme::getAccelerationData(this())) | IMP & !{_doesFirstStep} & {_acceleration}
        c) call set::insert(_requiredActions, Action::WriteCheckpoint) | IMP
        x) call BaseCouplingScheme::exchangeInitialData(this())
        f) store *::_isInitialized(*) = 1
        final _isInitialized = 1
        order s < i < x < f
        order t < x
        order w < x
        order h < x
        order c < x
        order a < x
    ''')
    sp('window storage', B_ + 'moveToNextWindow', 'for _allData: call CouplingData::moveToNextWindow(elem(_allData).second)')
    sp('window storage', B_ + 'storeIteration', 'for _allData: call CouplingData::storeIteration(elem(_allData).second)')
    sp('convergence', B_ + 'doImplicitStep', '''
        m) for MEAS: call ConvergenceMeasure::measure(elem(MEAS).measure, CouplingData::previousIteration(elem(MEAS).couplingData), CouplingData::values(elem(MEAS).couplingData))
        final _hasConverged := MEASURED | LAST
        h) some store *::_hasConverged(*) = *
        a) call Acceleration::iterationsConverged(_acceleration, BaseCouplingScheme::getAccelerationData(this()), TimeHandler::windowStart(_time)) | {_acceleration} & (MEASURED | LAST)
        n) for MEAS: call ConvergenceMeasure::newMeasurementSeries(elem(MEAS).measure) | MEASURED | LAST
        p) call Acceleration::performAcceleration(_acceleration, BaseCouplingScheme::getAccelerationData(this()), TimeHandler::windowStart(_time), *) | {_acceleration} & !MEASURED & !LAST
        p1) call Acceleration::performAcceleration(*, TimeHandler::time(_time)+TimeHandler::untilWindowEnd(_time, _timeWindowSize)) | {_acceleration} & !MEASURED & !LAST & !NOW
        p2) call Acceleration::performAcceleration(*, TimeHandler::time(_time)+TimeHandler::untilEnd(_time)) | {_acceleration} & !MEASURED & !LAST & NOW
        throws | ANYM{any(MEAS: !(_iterations < _maxIterations) & !ConvergenceMeasure::isConvergence(elem(MEAS).measure) & elem(MEAS).strict)}
        order m < h < a < n
        order h < p
    '''.replace('ANYM', '').replace('MEASURED', '(!{(_iterations < _minIterations)} & !{(size(MEAS) == 0)} & (ALLC | SUFF & !STRICT))')
       .replace('LAST', '{(_iterations == _maxIterations)}')
       .replace('ALLC', '!{any(MEAS: !ConvergenceMeasure::isConvergence(elem(MEAS).measure))}')
       .replace('SUFF', '{any(MEAS: ConvergenceMeasure::isConvergence(elem(MEAS).measure) & elem(MEAS).suffices)}')
       .replace('STRICT', '{any(MEAS: !ConvergenceMeasure::isConvergence(elem(MEAS).measure) & elem(MEAS).strict)}')
       .replace('MEAS', '_convergenceMeasures'))
    ctx.spec('convergence', B_ + 'addConvergenceMeasure', 'call vector::push_back(_convergenceMeasures, init(*ConvergenceMeasureContext, (idx(_allData, arg0), arg1, arg2, arg3)))')
    ctx.spec('convergence', B_ + 'sendConvergence', 'call M2N::send(arg0, _hasConverged)')
    ctx.spec('convergence', B_ + 'receiveConvergence', 'call M2N::receive(arg0, _hasConverged)')
    ctx.spec('sub-steps', B_ + 'requiresSubsteps', 'returns | {any(_allData: (elem(_allData).second._direction == Direction::Send) & elem(_allData).second._exchangeSubsteps)}')
    th(ctx)
    meas(ctx)
    comp(ctx)


def th(ctx):
    I, PR, ST, MX = '_impl.', '_impl._windowProgress', '_impl._windowStart', '_impl._maxTime'
    d = {'resetTo': '''store *::_windowStart(*) = arg0
                       final _impl._windowStart = arg0
                       final _impl._windowProgress = 0''',
         'progressBy': 'final P = P+arg0',
         'resetProgress': 'final P = 0',
         'completeTimeWindow': '''final P = 0
                       final S = S+arg0 | {math::equals(P, arg0, 1e-14)}
                       final S = P+S | !{math::equals(P, arg0, 1e-14)}''',
         'time': 'ret return() = P+S',
         'windowStart': 'ret return() = S',
         'windowProgress': 'ret return() = P',
         'untilTime': 'ret return() = -1*P+-1*S+arg0',
         'untilEnd': '''ret return() = numeric_limits::max() | !{M}
                        ret return() = -1*P+-1*S+M | {M}''',
         'untilWindowEnd': '''ret return() = -1*P+arg0 | !{M}
                        ret return() = std::min(-1*P+arg0, -1*P+-1*S+M) | {M}''',
         'reachedEnd': 'returns | {M} & {math::equals(-1*P+-1*S+M, 0, 1e-14)}',
         'reachedEndOfWindow': 'returns | {math::equals([!M ? -1*P+arg0 : std::min(-1*P+arg0, -1*P+-1*S+M)], 0, 1e-14)}'}
    for k, v in d.items():
        f = H_ + k
        v = re.sub(r'\bP\b', PR, re.sub(r'\bS\b', ST, re.sub(r'\bM\b', MX, v)))
        ctx.spec('clock', f, v)


def meas(ctx):
    M = 'precice::cplscheme::impl::'
    D = 'IntraComm::l2norm(VectorXd(-1*arg0+arg1))'
    N = 'IntraComm::l2norm(arg1)'
    REL = '!{(0 < -1*%s*_convergenceLimitPercent+%s)}' % (N, D)
    ABS = '!{(_convergenceLimit < %s)}' % D
    for k, conv, extra in (
            ('Absolute', ABS, ''), ('Relative', REL, ''), ('AbsoluteOrRelative', '%s | %s' % (REL, ABS), ''),
            ('ResidualRelative', '{(-1*[_isFirstIteration ? %s : _normFirstResidual]*_convergenceLimitPercent+%s < 0)}' % (D, D),
             """final _isFirstIteration = 0 | {_isFirstIteration}
             final _normFirstResidual = %s | {_isFirstIteration}
             final _normFirstResidual = _normFirstResidual | !{_isFirstIteration}
             """ % D)):
        c = M + k + 'ConvergenceMeasure::'
        ctx.spec('measures', c + 'measure', 'final _normDiff = %s\nfinal _isConvergence := %s\n%s' % (D, conv, extra.replace('\n             ', '\n').replace('final _isFirstIteration = 0 | {_isFirstIteration}', 'final _isFirstIteration := F')))
        ctx.spec('measures', c + 'newMeasurementSeries', 'final _isConvergence = 0' + ('\nfinal _isFirstIteration = 1' if k.startswith('Res') else ''))
        ctx.spec('measures', c + 'isConvergence', 'returns | {_isConvergence}')
        lim = {'Absolute': ['_convergenceLimit'], 'AbsoluteOrRelative': ['_convergenceLimit', '_convergenceLimitPercent']}.get(k, ['_convergenceLimitPercent'])
        ctx.spec('measures', c + k + 'ConvergenceMeasure', '\n'.join('store *::%s(*) = arg%d' % (l, i) for i, l in enumerate(lim)) +
                 '\nstore *::_isConvergence(*) = 0' + ('\nstore *::_isFirstIteration(*) = 1' if k.startswith('Res') else ''))


def comp(ctx):
    C = 'precice::cplscheme::CompositionalCouplingScheme::'
    S = '_explicitSchemes'
    I = '{_implicitScheme}'
    H = '{_explicitOnHold}'
    CATCH = '!{(CouplingScheme::getTime(_implicitScheme) < CouplingScheme::getTime(idx(_explicitSchemes, 0)))}'
    for r, f, t in (
        ('initialize', 'initialize', '''
            i) for *: call CouplingScheme::initialize(elem(*))
            p) for *: call vector::push_back(_activeSchemes, elem(*))
            s) some call vector::push_back(*, _implicitScheme) | I
        '''),
        ('progress', 'addComputedTime', '''
            e) for XS: call CouplingScheme::addComputedTime(elem(XS), arg0) | !I | !H
            i) call CouplingScheme::addComputedTime(_implicitScheme, arg0) | I
            returns | !I & EADD | I & IADD | I & !H & EADD
            final _explicitOnHold := H | I & IADD
            c) call vector::clear(_activeSchemes) | I & !H & IADD
            p) call vector::push_back(*, _implicitScheme) | I & !H & IADD
            none call vector::push_back(*, elem(*))
            order c < p
        '''),
        ('first phase', 'firstExchange', '''
            e) for XS: call CouplingScheme::firstExchange(elem(XS)) | !I | !H
            i) call CouplingScheme::firstExchange(_implicitScheme) | I
        '''),
        ('synchronisation', 'firstSynchronization', 'for _activeSchemes: call CouplingScheme::firstSynchronization(elem(_activeSchemes), arg0)'),
        ('synchronisation', 'secondSynchronization', 'for _activeSchemes: call CouplingScheme::secondSynchronization(elem(_activeSchemes))'),
        ('second phase', 'secondExchange', '''
            i) call CouplingScheme::secondExchange(_implicitScheme) | I
            f) for XS: call CouplingScheme::firstExchange(elem(XS)) | I & CATCH
            y) for XS: call CouplingScheme::secondSynchronization(elem(XS)) | I & CATCH
            e) for XS: call CouplingScheme::secondExchange(elem(XS)) @ _implicitScheme | I & CATCH
            x) for XS: call CouplingScheme::secondExchange(elem(XS)) @ !_implicitScheme | !I
            final _explicitOnHold := {_explicitOnHold} & !(I & CATCH)
            c) call vector::clear(_activeSchemes) | I & CATCH
            p) call vector::push_back(*, _implicitScheme) | I & CATCH
            q) for XS: call vector::push_back(_activeSchemes, elem(XS)) | I & CATCH
            order i < f < y < e
            order c < p < q
            fresh f CouplingScheme::getTime(_implicitScheme) after i
            fresh e CouplingScheme::getTime(_implicitScheme) before e
        '''),
        ('progress', 'getTime', '''
            ret return() = CouplingScheme::getTime(_implicitScheme) | I
            ret return() = CouplingScheme::getTime(idx(XS, 0)) | !I
        '''),
        ('progress', 'getTimeWindowStart', '''
            ret return() = *out(numeric_limits::max(), std::min(CouplingScheme::getTimeWindowStart(elem(*)), phi*))'''),
        ('progress', 'isCouplingOngoing', 'returns | I & {CouplingScheme::isCouplingOngoing(_implicitScheme)} | !I & {CouplingScheme::isCouplingOngoing(idx(XS, 0))}'),
        ('progress', 'isTimeWindowComplete', 'returns | {any(_activeSchemes: CouplingScheme::isTimeWindowComplete(elem(_activeSchemes)))}'),
        ('progress', 'getNextTimeStepMaxSize', 'ret return() = *out(numeric_limits::max(), std::min(CouplingScheme::getNextTimeStepMaxSize(elem(_activeSchemes)), phi*))'),
        ('progress', 'hasConverged', 'returns | !I | {CouplingScheme::hasConverged(_implicitScheme)}'),
        ('sub-steps', 'requiresSubsteps', 'for * BREAKS: ret return() = 1 | {CouplingScheme::requiresSubsteps(elem(*))}'),
    ):
        t = t.replace('CATCH', CATCH).replace('XS', S).replace('EADD', '{any(XS: CouplingScheme::addComputedTime(elem(XS), arg0))}'.replace('XS', S)).replace('IADD', '{CouplingScheme::addComputedTime(_implicitScheme, arg0)}')
        t = re.sub(r'\bI\b', I, re.sub(r'\bH\b', H, t))
        ctx.spec('composition: ' + r, C + f, t)
    ALL = 'CompositionalCouplingScheme::allSchemes(this())'
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n != 'allSchemes'
    for r, f, t in (
        ('progress', 'willDataBeExchanged', 'returns | {any(ALL: CouplingScheme::willDataBeExchanged(elem(ALL), arg0))}'),
        ('progress', 'hasDataBeenReceived', 'returns | {any(ALL: CouplingScheme::hasDataBeenReceived(elem(ALL)))}'),
        ('initialize', 'sendsInitializedData', 'returns | {any(ALL: CouplingScheme::sendsInitializedData(elem(ALL)))}'),
        ('initialize', 'isInitialized', 'returns | {any(ALL: CouplingScheme::isInitialized(elem(ALL)))} || returns | !{any(ALL: !CouplingScheme::isInitialized(elem(ALL)))}'),
        ('progress', 'finalize', 'for ALL: call CouplingScheme::finalize(elem(ALL))'),
        ('progress', 'getTimeWindows', 'ret return() = *out(numeric_limits::max(), std::min(CouplingScheme::getTimeWindows(elem(ALL)), phi*))'),
        ('schemes', 'getCouplingPartners', 'for ALL: call vector::insert(*end(*)*, *begin(CouplingScheme::getCouplingPartners(elem(ALL)))*, *end(CouplingScheme::getCouplingPartners(elem(ALL)))*)'),
        ('schemes', 'localParticipant', 'ret return() = CouplingScheme::localParticipant(*)'),
        ('schemes', 'addCouplingScheme', """
            call vector::*_back(_explicitSchemes, arg0) | !{CouplingScheme::isImplicitCouplingScheme(arg0)}
            store *::_implicitScheme(_implicitScheme) = arg0 | {CouplingScheme::isImplicitCouplingScheme(arg0)}
        """),
        ('schemes', 'allSchemes', """
            ret return() = [_implicitScheme ? vector(size(XS)*)~push_back(_implicitScheme) : vector(size(XS)*)]~transform(XS, *elem(XS)*) || for XS: call vector::*_back(*, *elem(XS)*)
            call vector::*_back(*, _implicitScheme) | I
        """),
        ('sub-steps', 'implicitDataToReceive', """
            ret return() = CouplingScheme::implicitDataToReceive(_implicitScheme) | I
            ret return() = init(ImplicitData, (map())) | !I || ret return() = ImplicitData() | !I
        """),
    ):
        t = t.replace('XS', S).replace('ALL', ALL)
        ctx.spec('composition: ' + r, ctx.fn(C + f, policy=keep), re.sub(r'\bI\b', I, t))
    basics(ctx)


def basics(ctx):
    """set-up of a coupling scheme: every limit and role lands in its own member, counters start at one; what other components ask for is answered from them"""
    B = 'precice::cplscheme::BaseCouplingScheme::'
    R = 'set-up'
    UNSET = '{math::equals(arg0, -1, 1e-14)}'
    ctx.spec(R, B + 'BaseCouplingScheme', """
        store *::_couplingMode(*) = arg6
        store *::_maxTime(*) = arg0
        store *::_maxTimeWindows(*) = arg1
        store *::_timeWindows(*) = 1
        store *::_timeWindowSize(*) = arg2
        store *::_nextTimeWindowSize(*) = arg2
        store *::_minIterations(*) = arg4
        store *::_maxIterations(*) = arg5
        store *::_iterations(*) = 1
        store *::_totalIterations(*) = 1
        store *::_doesFirstStep(*) = 0
        store *::_isTimeWindowComplete(*) = 0
        store *::_sendsInitializedData(*) = 0
        store *::_receivesInitializedData(*) = 0
        store *::_hasDataBeenReceived(*) = 0
        store *::_isInitialized(*) = 0
        store *::_hasConverged(*) = 0
        store *::_localParticipant(*) = arg3
        when call TimeHandler::operator=(*, TimeHandler()) | UNSET || some final _time = TimeHandler() | UNSET
        when call TimeHandler::operator=(*, TimeHandler(arg0)) | !UNSET || some final _time = TimeHandler(arg0) | !UNSET
    """.replace('UNSET', UNSET))
    K = 'precice::cplscheme::'
    for c, first, call in (('BiCouplingScheme', '{(arg3 == arg5)}', 'base BaseCouplingScheme(arg0, arg1, arg2, arg5, arg7, arg8, arg9, arg10)'),
                           ('MultiCouplingScheme', '!{(arg3 == arg5)}', 'base BaseCouplingScheme(arg0, arg1, arg2, arg3, arg6, arg7, BaseCouplingScheme::Implicit, *FIXED_TIME_WINDOW_SIZE)')):
        ctx.spec(R, K + c + '::' + c, call + """
            call BaseCouplingScheme::setDoesFirstStep(this(), 1) | FIRST || call BaseCouplingScheme::setDoesFirstStep(this(), <%s>)
            only call BaseCouplingScheme::setDoesFirstStep(this(), 0) | !FIRST || call BaseCouplingScheme::setDoesFirstStep(this(), <%s>)
        """.replace('FIRST', first) % ((first.replace('{', '').replace('}', ''),) * 2))
    ctx.spec(R, K + 'BiCouplingScheme::BiCouplingScheme', """
        store *::_m2n(*) = arg6
        store *::_firstParticipant(*) = arg3
        store *::_secondParticipant(*) = arg4
        throws | !{(arg3 == arg5)} & !{(arg4 == arg5)}
    """)
    ctx.spec(R, K + 'MultiCouplingScheme::MultiCouplingScheme', """
        store *::_m2ns(*) = arg4
        store *::_controller(*) = arg5
        store *::_isController(*) = <(arg3 == arg5)>
    """)
    for F in ctx.funcs(K + 'ParallelCouplingScheme::ParallelCouplingScheme'):
        if len(F.params) == 10:
            ctx.spec(R, ctx.analyse(F), 'base BiCouplingScheme(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg8, arg9, arg7, *FIXED_TIME_WINDOW_SIZE)')
    ctx.spec(R, K + 'BiCouplingScheme::getCouplingPartners', """
        call vector::*_back(*, _secondParticipant) | {_doesFirstStep} || ret return() = *_secondParticipant* | {_doesFirstStep}
        call vector::*_back(*, _firstParticipant) | !{_doesFirstStep} || ret return() = *_firstParticipant* | !{_doesFirstStep}
    """)
    ctx.spec(R, K + 'MultiCouplingScheme::getCouplingPartners', 'for _m2ns: call vector::*_back(*, elem(_m2ns).first)')
    ctx.spec(R, K + 'BiCouplingScheme::hasAnySendData', 'returns | !{(size(_sendData) == 0)}')
    ctx.spec(R, K + 'MultiCouplingScheme::hasAnySendData', 'returns | {any(_sendDataVector: !(size(elem(_sendDataVector).second) == 0))}')
    ctx.spec(R, K + 'BiCouplingScheme::initializeReceiveDataStorage', 'call BaseCouplingScheme::initializeWithZeroInitialData(this(), _receiveData)')
    ctx.spec(R, K + 'MultiCouplingScheme::initializeReceiveDataStorage', 'for _receiveDataVector: call BaseCouplingScheme::initializeWithZeroInitialData(this(), elem(_receiveDataVector).second)')
    for q, v in (('isInitialized', '_isInitialized'), ('getTimeWindowProgress', 'TimeHandler::windowProgress(_time)'), ('getWindowStartTime', 'TimeHandler::windowStart(_time)'),
                 ('localParticipant', '_localParticipant'), ('firstSynchronization', 'arg0'), ('secondSynchronization', '*Mesh*()')):
        ctx.spec(R, B + q, 'ret return() = ' + v)
    for q, m, v in (('setDoesFirstStep', '_doesFirstStep', 'arg0'), ('notifyDataHasBeenReceived', '_hasDataBeenReceived', '1'), ('setTimeWindows', '_timeWindows', 'arg0'), ('setAcceleration', '_acceleration', 'arg0')):
        ctx.spec(R, B + q, 'store *::%s(*) = %s' % (m, v))
    f = ctx.fn(B + 'willDataBeExchanged', policy=lambda A, F, D: ctx.policy(A, F, D) and D.n != 'getNextTimeStepMaxSize')
    ctx.returns(R, f, '!{math::greater(-1*arg0+*::getNextTimeStepMaxSize(this()), 0, 1e-14)}')
    I_ = K + 'ImplicitData::'
    ctx.spec(R, I_ + 'add', 'store ImplicitData::entries(idx(entries, arg0)) = arg1 || call map::*emplace(entries, *arg0, arg1*)')
    ctx.returns(R, ctx.fn(I_ + 'contains'), '{contains(entries, arg0)}')
    ctx.spec(R, I_ + 'toKeep', 'ret return() = idx(entries, arg0)')
    f = ctx.fn(B + 'reinitialize', policy=lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('initializeTXTWriters', 'getAccelerationData'))
    IM = '{(_couplingMode == BaseCouplingScheme::Implicit)}'
    ctx.spec('remeshing', f, """
        D) for _allData: call CouplingData::reinitialize(elem(_allData)*) | IM
        A) call Acceleration::initialize(_acceleration, BaseCouplingScheme::getAccelerationData(this())) | !{_doesFirstStep} & IM & {_acceleration}
        order D < A
    """.replace('IM', IM))
    # the logs go on after a change of a mesh
    ctx.spec('remeshing', ctx.fn(B + 'reinitialize'), '''
        none store BaseCouplingScheme::_iterationsWriter(*)
        none store BaseCouplingScheme::_convergenceWriter(*)
    ''')
