"""Exchange protocol of the coupling schemes: what one participant sends is what the other one receives, in the same order
and under the same conditions. The operations of both roles of every scheme (condition, order, data) are compared with one
protocol table, so that for every step of the table exactly one side sends and the other receives."""
from check import *
from api import *

MIN = 178
C = 'precice::cplscheme::'
T_ = {
    'FIRST': '{_doesFirstStep}', 'EXPL': '{BaseCouplingScheme::isExplicitCouplingScheme(this())}', 'CONV': '{_hasConverged}',
    'GOING': '{BaseCouplingScheme::isCouplingOngoing(this())}', 'SENDI': '{_sendsInitializedData}', 'RECVI': '{_receivesInitializedData}',
    'SETS': '{_participantSetsTimeWindowSize}', 'GETS': '{_participantReceivesTimeWindowSize}', 'CTRL': '{_isController}',
    'SEND': 'BaseCouplingScheme::sendData(this(), _m2n, _sendData)', 'RECV': 'BaseCouplingScheme::receiveData(this(), _m2n, _receiveData)',
    'RWEND': 'BaseCouplingScheme::receiveDataForWindowEnd(this(), _m2n, _receiveData)', 'NOTE': 'BaseCouplingScheme::notifyDataHasBeenReceived(this())',
    'ZERO': 'BaseCouplingScheme::initializeWithZeroInitialData(this(), _receiveData)', 'STEP': 'BaseCouplingScheme::doImplicitStep(this())',
    'SCONV': 'BaseCouplingScheme::sendConvergence(this(), _m2n)', 'RCONV': 'BaseCouplingScheme::receiveConvergence(this(), _m2n)',
    'MOVE': 'BaseCouplingScheme::moveToNextWindow(this())', 'KEEP': 'BaseCouplingScheme::storeIteration(this())',
    'RSIZE': 'M2N::receive(_m2n, *)', 'SSIZE': 'M2N::send(_m2n, _timeWindowSize)',
    'MRECV': 'for _receiveDataVector: call BaseCouplingScheme::receiveData(this(), idx(_m2ns, elem(_receiveDataVector).first), elem(_receiveDataVector).second)',
    'MSEND': 'for _sendDataVector: call BaseCouplingScheme::sendData(this(), idx(_m2ns, elem(_sendDataVector).first), elem(_sendDataVector).second)',
    'MZERO': 'for _receiveDataVector: call BaseCouplingScheme::initializeWithZeroInitialData(this(), elem(_receiveDataVector).second)',
    'FROM': '{contains(_receiveInitialFrom, elem(_receiveDataVector).first)}', 'TO': '{contains(_sendInitialTo, elem(_sendDataVector).first)}',
}


def sub(s):
    return re.sub(r'\b(%s)\b' % '|'.join(T_), lambda m: T_[m.group(1)], s)


def run(ctx):
    sp = lambda r, f, t: ctx.spec(r, C + f, sub(t))
    sp('serial: initial data', 'SerialCouplingScheme::exchangeInitialData', '''
        r1) call RECV | RECVI
        n1) call NOTE | FIRST & RECVI | !FIRST
        z) call ZERO | FIRST & !RECVI
        s) call SEND | SENDI
        g) call RSIZE | !FIRST & GETS
        h) call BaseCouplingScheme::setNextTimeWindowSize(this(), *) | !FIRST & GETS
        t) call BaseCouplingScheme::setTimeWindowSize(this(), _nextTimeWindowSize) | !FIRST
        w) call RWEND | !FIRST
        ra) call RECV @ _doesFirstStep | FIRST & RECVI
        sa) call SEND @ _doesFirstStep | FIRST & SENDI
        rb) call RECV @ !_doesFirstStep | !FIRST & RECVI
        sb) call SEND @ !_doesFirstStep | !FIRST & SENDI
        order ra < sa
        order sb < rb < g < h < t < w
        none call M2N::send*
    ''')
    sp('serial: first phase', 'SerialCouplingScheme::exchangeFirstData', '''
        z) call SSIZE | FIRST & SETS
        y) call BaseCouplingScheme::setTimeWindowSize(this(), BaseCouplingScheme::getTimeWindowProgress(this())) | FIRST & SETS
        s) call SEND
        a) call STEP | !FIRST & !EXPL
        c) call SCONV | !FIRST & !EXPL
        none call BaseCouplingScheme::receive*
        none call M2N::receive*
        order y < z < s
        order a < c < s
    ''')
    sp('serial: second phase', 'SerialCouplingScheme::exchangeSecondData', '''
        c) call RCONV | FIRST & !EXPL
        r) call RECV | FIRST | !FIRST & !EXPL & !CONV
        ra) call RECV @ _doesFirstStep | FIRST
        rb) call RECV @ !_doesFirstStep | !FIRST & !EXPL & !CONV
        m) call MOVE | EXPL | CONV
        k) call KEEP | !EXPL
        g) call RSIZE | !FIRST & GETS & (GOING | !EXPL & !CONV)
        w) call RWEND | !FIRST & GOING & (EXPL | CONV)
        n) call NOTE | FIRST | GOING | !EXPL & !CONV
        h) call BaseCouplingScheme::setNextTimeWindowSize(this(), *) | !FIRST & GETS & (GOING | !EXPL & !CONV)
        none call M2N::send*
        none call BaseCouplingScheme::send*
        order c < ra < m < k
        order k < g < h < w
        order h < rb
        order m < w
    ''')
    sp('parallel: initial data', 'ParallelCouplingScheme::exchangeInitialData', '''
        r) call RECV | RECVI
        s) call SEND | SENDI
        n) call NOTE | RECVI
        z) call ZERO | !RECVI
        sa) call SEND @ _doesFirstStep | FIRST & SENDI
        ra) call RECV @ _doesFirstStep | FIRST & RECVI
        rb) call RECV @ !_doesFirstStep | !FIRST & RECVI
        sb) call SEND @ !_doesFirstStep | !FIRST & SENDI
        order sa < ra
        order rb < sb
    ''')
    sp('parallel: first phase', 'ParallelCouplingScheme::exchangeFirstData', '''
        s) call SEND | FIRST
        r) call RECV | !FIRST
        n) call NOTE | !FIRST
    ''')
    sp('parallel: second phase', 'ParallelCouplingScheme::exchangeSecondData', '''
        c) call RCONV | FIRST & !EXPL
        r) call RECV | FIRST
        n) call NOTE | FIRST
        a) call STEP | !FIRST & !EXPL
        v) call SCONV | !FIRST & !EXPL
        s) call SEND | !FIRST
        m) call MOVE | EXPL | CONV
        k) call KEEP | !EXPL
        order c < r < m < k
        order a < v < s < m
    ''')
    sp('multi: initial data', 'MultiCouplingScheme::exchangeInitialData', '''
        r) MRECV | FROM
        z) MZERO | !FROM
        s) MSEND | TO
        n) call NOTE
        ra) MRECV @ _isController | CTRL & FROM
        sa) MSEND @ _isController | CTRL & TO
        rb) MRECV @ !_isController | !CTRL & FROM
        sb) MSEND @ !_isController | !CTRL & TO
        order ra < sa
        order sb < rb
    ''')
    sp('multi: first phase', 'MultiCouplingScheme::exchangeFirstData', '''
        r) MRECV | CTRL
        s) MSEND | !CTRL
        n) call NOTE | CTRL
    ''')
    sp('multi: second phase', 'MultiCouplingScheme::exchangeSecondData', '''
        c) call BaseCouplingScheme::receiveConvergence(this(), idx(_m2ns, _controller)) | !CTRL
        r) MRECV | !CTRL
        n) call NOTE | !CTRL
        a) call STEP | CTRL
        v) for _m2ns: call BaseCouplingScheme::sendConvergence(this(), elem(_m2ns).second) | CTRL
        s) MSEND | CTRL
        m) call MOVE | CONV
        k) call KEEP
        order c < r < m < k
        order a < v < s < m
    ''')
    payload(ctx)
    members(ctx)


def payload(ctx):
    B = C + 'BaseCouplingScheme::'
    D = 'elem(arg1).second'
    SUBS, GRAD = '{%s._exchangeSubsteps}' % D, '{CouplingData::hasGradient(%s)}' % D
    ID, DIM, MD = 'CouplingData::getMeshID(%s)' % D, 'CouplingData::getDimensions(%s)' % D, 'CouplingData::meshDimensions(%s)' % D
    TS = 'Waveform::getTimes(CouplingData::waveform(%s))' % D
    ENDS = 'Waveform::getSampleAtEnd(CouplingData::waveform(%s))' % D
    SER = 'SerializedStamples::serialize(%s)' % D
    ctx.spec('payload sent', B + 'sendData', '''
        a) for arg1: call M2N::send(arg0, size(TS)) | SUBS
        b) for arg1: call M2N::send(arg0, TS) | SUBS
        c) for arg1: call M2N::send(arg0, SER._values, ID, DIM*SER._timeSteps) | SUBS
        d) for arg1: call M2N::send(arg0, SER._gradients, ID, DIM*MD*SER._timeSteps) | SUBS & GRAD
        e) for arg1: call M2N::send(arg0, ENDS.values, ID, DIM) | !SUBS
        f) for arg1: call M2N::send(arg0, ENDS.gradients, ID, DIM*MD) | !SUBS & GRAD
        order a < b < c < d
        order e < f
    '''.replace('SUBS', SUBS).replace('GRAD', GRAD).replace('TS', TS).replace('ENDS', ENDS).replace('SER.', SER + '.').replace('MD', MD).replace('DIM*', DIM + '*').replace('DIM)', DIM + ')').replace(' ID,', ' ' + ID + ','))
    N = 'size(vector(*))'
    EMP = 'SerializedStamples::empty(%s, %s)' % (N, D)
    rx = '''
        a) for arg1: call M2N::receive(arg0, int()) | SUBS
        b) for arg1: call M2N::receive(arg0, vector(out(M2N::receive)*)) | SUBS
        c) for arg1: call M2N::receive(arg0, EMP._values, ID, DIM*N) | SUBS
        d) for arg1: call M2N::receive(arg0, EMP._gradients, ID, DIM*MD*N) | SUBS & GRAD
        g) for arg1: call SerializedStamples::deserializeInto(EMP, vector(*), elem(arg1).second) | SUBS
        e) for arg1: call M2N::receive(arg0, Sample(*).values, ID, DIM) | !SUBS
        f) for arg1: call M2N::receive(arg0, Sample(*).gradients, ID, DIM*MD) | !SUBS & GRAD
        h) for arg1: call CouplingData::setSampleAtTime(elem(arg1).second, TimeHandler::time(_time), Sample(*)) | !SUBS
        for arg1: some call M2N::receive(arg0, Sample(DIM, CouplingData::nVertices(elem(arg1).second)*).values, *)
        order a < b < c < d < g
        order e < f < h
        order e < h
        order c < g
    '''.replace('SUBS', SUBS).replace('GRAD', GRAD).replace('EMP', EMP).replace('MD*N', MD + '*' + N).replace('DIM*N', DIM + '*' + N).replace('MD)', MD + ')').replace('DIM*', DIM + '*').replace('DIM)', DIM + ')').replace('DIM,', DIM + ',').replace(' ID,', ' ' + ID + ',')
    ctx.spec('payload received', B + 'receiveData', rx)
    ctx.spec('payload received', B + 'receiveDataForWindowEnd', rx + '''
        p) call TimeHandler::progressBy(_time, _nextTimeWindowSize)
        q) call TimeHandler::operator=(_time, _time)
        order p < a < q
        order p < e < q
        fresh h TimeHandler::time(_time) after p
    ''')
    ctx.spec('payload received', B + 'initializeWithZeroInitialData', 'for arg0: call CouplingData::initializeWithZeroAtTime(elem(arg0).second, TimeHandler::time(_time))')


def members(ctx):
    B = C + 'BaseCouplingScheme::'
    ctx.spec('membership', B + 'addCouplingData', '''
        call map::emplace(_allData, arg0._id, new(*CouplingData, (arg0, arg1, arg2, arg3, arg4), *)) | !{contains(_allData, arg0._id)}
        ret return() = idx(_allData, arg0._id) | {contains(_allData, arg0._id)}
    ''')
    for f, p in (('determineInitialSend', '_sendsInitializedData'), ('determineInitialReceive', '_receivesInitializedData')):
        ctx.spec('initial data', B + f, '''final %s := {%s} | {any(arg0: elem(arg0).second.requiresInitialization)}''' % (p, p))
    ctx.spec('initial data', C + 'BiCouplingScheme::determineInitialDataExchange', '''
        call BaseCouplingScheme::determineInitialSend(this(), _sendData)
        call BaseCouplingScheme::determineInitialReceive(this(), _receiveData)''')
    ctx.spec('initial data', C + 'MultiCouplingScheme::determineInitialDataExchange', '''
        for _sendDataVector: call BaseCouplingScheme::determineInitialSend(this(), elem(_sendDataVector).second)
        for _receiveDataVector: call BaseCouplingScheme::determineInitialReceive(this(), elem(_receiveDataVector).second)''')
    for d, l in (('Send', 'send'), ('Receive', 'receive')):
        A = 'BaseCouplingScheme::addCouplingData(this(), arg0, arg1, arg2, arg3, Direction::%s)' % d
        ctx.spec('membership', C + 'BiCouplingScheme::addDataTo' + d, '''
            call map::emplace(_%sData, arg0._id, %s)
            throws | {*contain*_%sData*}''' % (l, A, l))
        ctx.spec('membership', C + 'MultiCouplingScheme::addDataTo' + d, '''
            call map::emplace(idx(_%sDataVector, arg4), arg0._id, %s)
            call set::emplace(%s, arg4) | {arg2}''' % (l, A, '_sendInitialTo' if d == 'Send' else '_receiveInitialFrom'))
    ctx.spec('acceleration data', C + 'SerialCouplingScheme::getAccelerationData', 'ret return() = _sendData')
    ctx.spec('acceleration data', C + 'ParallelCouplingScheme::getAccelerationData', 'ret return() = _allData')
    ctx.spec('acceleration data', C + 'MultiCouplingScheme::getAccelerationData', 'ret return() = _allData')
    ctx.spec('implicit data', C + 'SerialCouplingScheme::implicitDataToReceive',
             'for _receiveData: call ImplicitData::add(*, CouplingData::getDataID(elem(_receiveData).second), <!_doesFirstStep>) | {BaseCouplingScheme::isImplicitCouplingScheme(this())}')
    ctx.spec('implicit data', B + 'implicitDataToReceive',
             'for _allData: call ImplicitData::add(*, CouplingData::getDataID(elem(_allData).second), 0) | {(_couplingMode == BaseCouplingScheme::Implicit)} & {(elem(_allData).second._direction == Direction::Receive)}')
    f = ctx.fn(C + 'SerialCouplingScheme::SerialCouplingScheme', nparams=11)
    ctx.spec('window size', f, sub('''
        call BaseCouplingScheme::setTimeWindowSize(this(), -1) | FIRST & METHOD
        final _participantSetsTimeWindowSize := FIRST & METHOD
        final _participantReceivesTimeWindowSize := !FIRST & METHOD
    ''').replace('METHOD', '{(arg7 == constants::FIRST_PARTICIPANT_SETS_TIME_WINDOW_SIZE)}'))
