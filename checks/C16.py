"""Waveforms: the samples of a data field over a time window are kept once per time in order, replaced or dropped as asked, and what is
read at a time is the interpolation of exactly the samples stored then. Gated summaries of the waveform, its cached spline (every change of
what it was computed from drops it), the data and coupling data which use it, and the time grids."""
from check import *
from api import *

MIN = 90
W_ = 'precice::time::Waveform::'
ST = '_stampleStorage'
READS = {'size', 'front', 'back', 'begin', 'end', 'empty', 'data', 'at', 'operator[]', 'cbegin', 'cend', 'find_if', 'any_of', 'all_of', 'none_of', 'is_sorted', 'distance', 'lower_bound', 'upper_bound',
         'adjacent_find', 'count_if', 'for_each', 'reserve', 'make_iterator_range', 'transform', 'max_element', 'capacity', 'prev', 'next', 'operator++', 'operator--', 'min', 'max'}


def run(ctx):
    P, E = ctx.P, ctx.E
    # ---- the cached spline belongs to the samples and the degree
    R = 'the cached spline fits the samples'
    n = 0
    for F in sorted(P.funcs.values(), key=lambda F: (F.file or '', F.line or 0)):
        if not re.match(re.escape(W_) + r'[^:]+$', F.d.q) or F.dep or F.body is None or F.d.n == 'Waveform' or F.d.cst:
            continue
        f = ctx.analyse(F)
        B = f.A.B
        drops, changes = [], []
        for e in f.events:
            nm = e.q.split('::')[-1]
            a0 = f.n(e.args[0]) if e.args else ''
            if e.kind == 'store' and nm == '_bspline' and re.match(r'null|none|(std::)?optional\(\)|(std::)?nullopt', f.n(e.val)) or e.kind == 'call' and nm == 'reset' and a0.startswith('_bspline'):
                drops.append(e)
            elif e.kind == 'store' and (nm == '_degree' or re.match(r'(\w+\()*' + ST, a0)) or e.kind == 'call' and nm not in READS and re.match(r'(\w+\()*' + ST, a0):
                changes.append(e)
        mutable = re.search(r'iterator_range|span|[&*]$', F.d.t or '') and 'const' not in (F.d.t or '') and any(ST in f.n(r.val) for r in f.events if r.kind == 'ret' and r.val is not None)
        if not changes and not mutable:
            continue
        n += 1
        if mutable:
            g = 0
            for d in drops:
                g = B.OR(g, d.g if not d.loops else 0)
            ctx.ob(R, '%s: the spline is dropped before samples can be changed through the result' % F.d.n, g == 1, '%s:%s' % (F.file, F.line), 'the cached spline survives changes of the samples')
        for e in changes:
            g = 0
            for d in drops:
                if list(d.loops) == list(e.loops)[:len(d.loops)]:
                    g = B.OR(g, d.g)
            ctx.ob(R, '%s: the spline is dropped when %s' % (F.d.n, 'the degree changes' if e.q.endswith('_degree') else 'samples change'), B.implies(e.g, g), e.loc, 'the cached spline survives this change')
    ctx.need(R, n, 9)

    def pick(f, *cs):
        return next((c for c in cs if f.atoms(c.strip('!{}'))), cs[0])

    R = 'samples of a window'
    sp = lambda f, t: ctx.spec(R, f, t)
    EMPTY = '{(size(_stampleStorage) == 0)}'
    EX = '{any(_stampleStorage: math::equals(elem(_stampleStorage).timestamp, arg0, 1e-14))}'
    NEW = 'call vector::*_back(_stampleStorage, init(Stample, (arg0, arg1))) | %s | !%s' % (EMPTY, EX)
    sp(W_ + 'setSampleAtTime', NEW + '''
        call Sample::operator=(find_if(_stampleStorage: math::equals(elem(_stampleStorage).timestamp, arg0, 1e-14)).sample, arg1) | !EMPTY & EX || for _stampleStorage BREAKS: call Sample::operator=(elem(_stampleStorage).sample, arg1) | !EMPTY & {math::equals(elem(_stampleStorage).timestamp, arg0, 1e-14)}
        none call vector::erase(*)
        none call vector::clear(*)
        none call vector::insert(*)
        none store Stample::timestamp(*)
    '''.replace('EMPTY', EMPTY).replace('EX', EX))
    sp(W_ + 'setAllSamples', '''
        for _stampleStorage: call Sample::operator=(elem(_stampleStorage).sample, arg0)
        none call vector::*(_stampleStorage*)
    ''')
    sp(W_ + 'operator=', '''
        C) call vector::clear(_stampleStorage)
        D) store Waveform::_degree(_degree) = arg0._degree || D) store Waveform::_degree(_degree) = Waveform::getInterpolationDegree(arg0)
        S) for *arg0*: call vector::emplace_back(_stampleStorage, init(Stample, (elem(*).timestamp, elem(*).sample))) | EMPTY | !{any(_stampleStorage: math::equals(elem(_stampleStorage).timestamp, elem(*).timestamp, 1e-14))} || S) for *arg0*: call Waveform::setSampleAtTime(this(), elem(*).timestamp, elem(*).sample)
        order C < S
    '''.replace('EMPTY', EMPTY))
    sp(W_ + 'setInterpolationDegree', 'store Waveform::_degree(_degree) = arg0')
    sp(W_ + 'clear', 'call vector::clear(_stampleStorage)')
    sp(W_ + 'move', '''
        call vector::erase(_stampleStorage, *begin(_stampleStorage)*, *-1*1+end(_stampleStorage)*)
        none call vector::*emplace*(*)
        none store Stample::*(*)
    ''')
    sp(W_ + 'clearExceptLast', 'call vector::erase(_stampleStorage, *begin(_stampleStorage)*, *-1*1+end(_stampleStorage)*) | !%s' % EMPTY)
    sp(W_ + 'trim', 'call vector::erase(_stampleStorage, *1+begin(_stampleStorage)*, *end(_stampleStorage)*)')
    for m, op in (('trimBefore', 'smaller'), ('trimAfter', 'greater')):
        sp(W_ + m, 'call vector::erase(_stampleStorage, *algo(remove_if, _stampleStorage, math::%s(elem(_stampleStorage).timestamp, arg0, 1e-14))*, *end(_stampleStorage)*)' % op)
    sp(W_ + 'maxStoredTime', '''
        ret return() = -1 | EMPTY
        ret return() = vector::back(_stampleStorage).timestamp | !EMPTY || ret return() = idx(_stampleStorage, -1*1+size(_stampleStorage)).timestamp | !EMPTY
    '''.replace('EMPTY', EMPTY))
    sp(W_ + 'nTimes', 'ret return() = size(_stampleStorage)')
    sp(W_ + 'nDofs', 'ret return() = size(idx(_stampleStorage, 0).sample.values) || ret return() = size(vector::front(_stampleStorage).sample.values)')
    sp(W_ + 'empty', 'ret return() = <%s>' % EMPTY[1:-1])
    for m, c in (('last', ''), ('getSampleAtEnd', '.sample')):
        sp(W_ + m, ' || '.join('ret return() = %s%s' % (x, c) for x in ('vector::back(_stampleStorage)', 'idx(_stampleStorage, -1*1+size(_stampleStorage))')))
    T1 = 'for *: store *(idx($*, iv)*) = idx(_stampleStorage, iv).timestamp || for *: store *(idx($*, iv)*) = elem(_stampleStorage).timestamp || for _stampleStorage: store *(idx($*, phi)*) = elem(_stampleStorage).timestamp'
    sp(W_ + 'getTimes', T1)
    sp(W_ + 'getTimesAndValues', T1 + '''
        for *: store *(idx($*MatrixXd(*, size(_stampleStorage))*, tup(col, (iv)))*) = idx(_stampleStorage, iv).sample.values
    ''')

    R = 'values are interpolated from the samples'
    U0 = '{(std::min(-1*1+size(_stampleStorage), _degree) == 0)}'
    sp(W_ + 'computeUsedDegree', 'ret return() = std::min(-1*1+arg1, arg0)')
    sp(W_ + 'getSampleAtOrAfter', '''
        ret return() = vector::front(_stampleStorage).sample | ONE || ret return() = idx(_stampleStorage, 0).sample | ONE
        ret return() = find_if(_stampleStorage: math::greaterEquals(elem(_stampleStorage).timestamp, arg0, 1e-14)).sample | !ONE
    '''.replace('ONE', '{(size(_stampleStorage) == 1)}'))
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('getTimesAndValues', 'getSampleAtOrAfter', 'computeUsedDegree', 'sample')
    for m, part in (('sample', 'values'), ('sampleGradients', 'gradients')):
        f = ctx.fn(W_ + m, policy=keep)
        t = '''
            ret return() = *Waveform::getSampleAtOrAfter(this(), arg0).values* | U0
            for _stampleStorage BREAKS: ret return() = *elem(_stampleStorage).sample.values* | !U0 & {math::equals(elem(_stampleStorage).timestamp, arg0, 1e-14)} || ret return() = *find_if(_stampleStorage: math::equals(elem(_stampleStorage).timestamp, arg0, 1e-14)).sample.values* | !U0 & EX
            B) store Waveform::_bspline(*) = *Waveform::getTimesAndValues(this()).first, Waveform::getTimesAndValues(this()).second, DEG* | !U0 & !EX & !{_bspline}
            I) call Bspline::interpolateAt(*, arg0) | !U0 & !EX
            only call Bspline::interpolateAt(*Waveform::getTimesAndValues(this()).first, Waveform::getTimesAndValues(this()).second, DEG*, arg0) | !{_bspline} || only call Bspline::interpolateAt(_bspline*, arg0) | {_bspline}
            ret return() = *Bspline::interpolateAt(*, arg0)* | !U0 & !EX
        ''' if part == 'values' else 'ret return() = *Waveform::getSampleAtOrAfter(this(), arg0).gradients*'
        ctx.spec(R, f, t.replace('DEG', 'Waveform::computeUsedDegree(this(), _degree, size(_stampleStorage))').replace('U0', pick(f, *['{(Waveform::computeUsedDegree(this(), _degree, size(_stampleStorage)) %s)}' % c for c in ('== 0', '< 1', '<= 0')])).replace('EX', EX))
    B_ = 'precice::math::Bspline::'
    TS = 'DenseBase::unaryExpr(arg0, lambda{(-1*idx(arg0, 0)+p0 / -1*idx(arg0, 0)+idx(arg0, -1*1+size(arg0)))})'
    ctx.spec(R, B_ + 'Bspline', '''
        final _ndofs = *rows(arg1)
        final _tsMin = idx(arg0, 0)
        final _tsMax = idx(arg0, -1*1+size(arg0))
        A) call vector::emplace_back(vector()*, 0, 0, 1)
        I) for [1, -1*1+N) >> [0, 1+arg2): call vector::emplace_back(*, iv1, -1*arg2+Spline::Span(idx(TS, iv1), arg2, KNOTS)+iv, idx(*Spline::BasisFunctions(idx(TS, iv1), arg2, KNOTS)*, iv))
        Z) call vector::emplace_back(*, -1*1+N, -1*1+N, 1)
        T) call SparseMatrix::setFromTriplets(SparseMatrix(N, N), begin(*), end(*))
        Q) call SparseQR::factorize(*, SparseMatrix(N, N)*setFromTriplets*)
        final _ctrls = SparseQR::solve(*factorize*, DenseBase::transpose(arg1))
        K) call Eigen::KnotAveraging(TS, arg2, *)
        order A < T
        order I < T
        order Z < T < Q
        order K < I
    '''.replace('N)', 'PlainObjectBase::cols(arg1))').replace('N,', 'PlainObjectBase::cols(arg1),').replace('KNOTS', '*KnotAveraging*').replace('TS', TS))
    ctx.spec(R, B_ + 'interpolateAt', '''
        for [0, _ndofs): store *(idx($*VectorXd(_ndofs)*, iv)*) = idx(*Spline(_knots, DenseBase::col(_ctrls, iv))*std::clamp((-1*_tsMin+arg0 / -1*_tsMin+_tsMax), 0, 1)*, 0)
    ''')
    S_ = 'precice::time::SampleResult::'
    for f in ctx.funcs(S_ + 'SampleResult'):
        if not f.d.ps or 'SampleResult' in f.d.ps[0]:
            continue
        own = '&&' in f.d.ps[0]
        init = [x for x in f.inits if x.get('d') is not None and f.tu.decls[x['d']].n == '_view']
        used = {f.tu.decls[y['d']].n if y['k'] == 'mem' else 'parameter' for x in init for y in effects.walk(x['e']) if y.get('k') in ('mem', 'var') and 'd' in y and y.get('d') is not None} & {'_owned', 'parameter'}
        ctx.ob(R, 'SampleResult(%s) shows %s' % (f.d.ps[0], 'the values it owns' if own else 'the values it is given'), used == ({'_owned'} if own else {'parameter'}), '%s:%s' % (f.file, f.line), 'the view is set up from %s' % ', '.join(sorted(used)))
    sp(S_ + 'values', 'ret return() = *_view*')
    sp(S_ + 'operator()', 'ret return() = idx(_view, arg0)')

    R = 'data and its waveform agree'
    def sp(f, t, **kw):
        fs = [ctx.fn(f, **kw)] if kw else [ctx.analyse(F) for F in ctx.funcs(f)]
        ctx.need(R, len(fs), 1)
        for x in fs:
            ctx.spec(R, x, t)
    D_ = 'precice::mesh::Data::'
    sp(D_ + 'setGlobalSample', 'call Sample::operator=(_sample, arg0)')
    sp(D_ + 'setSampleAtTime', '''
        call Sample::operator=(_sample, arg1)
        call Waveform::setSampleAtTime(_waveform, arg0, arg1)
    ''')
    SET = '''
        call Waveform::setSampleAtTime(_waveform, arg0, X) || call Data::setSampleAtTime(this(), arg0, X)
        call Sample::operator=(_sample, X) || call Data::setSampleAtTime(this(), arg0, X)
    '''
    for n, x in ((1, 'Sample(_dimensions)'), (2, 'Sample(_dimensions, *begin(arg1), size(arg1)*)'), (3, 'Sample(_dimensions, *begin(arg1), size(arg1)*begin(arg2), _spatialDimensions, (size(arg1) / _dimensions)*_dimensions*)')):
        sp(D_ + 'emplaceSampleAtTime', SET.replace('X', x), nparams=n)
    f = ctx.fn(D_ + 'moveToNextWindow')
    MORE = pick(f, '{(1 < size(*_waveform*))}', '{(1 < Waveform::nTimes(_waveform))}')
    ctx.spec(R, f, '''
        M) call Waveform::move(_waveform) | MORE
        S) call Sample::operator=(_sample, *_waveform*.sample) | MORE || S) call Sample::operator=(_sample, Waveform::getSampleAtEnd(_waveform)) | MORE
        order M < S
    '''.replace('MORE', MORE))
    sp(D_ + 'sampleAtTime', 'ret return() = Waveform::sample(_waveform, arg0)')
    sp(D_ + 'getWaveformDegree', 'ret return() = *_waveform*egree*')
    sp(D_ + 'hasSamples', 'ret return() = <!Waveform::empty(_waveform)>')
    sp(D_ + 'values', 'ret return() = _sample.values', )
    sp(D_ + 'gradients', 'ret return() = _sample.gradients')
    sp(D_ + 'sample', 'ret return() = _sample')
    sp(D_ + 'waveform', 'ret return() = _waveform')

    R = 'coupling data'
    C_ = 'precice::cplscheme::CouplingData::'
    sp(C_ + 'storeIteration', 'call Waveform::operator=(_previousTimeStepsStorage, _data._waveform)')
    sp(C_ + 'moveToNextWindow', '''
        M) call Data::moveToNextWindow(_data)
        S) call Waveform::operator=(_previousTimeStepsStorage, _data._waveform)
        order M < S
    ''')
    sp(C_ + 'CouplingData', '''
        call Waveform::operator=(*, *_waveform)
        final _mesh = arg1
        final _data = arg0
        final requiresInitialization = arg2
        final _exchangeSubsteps = arg3
        final _direction = arg4
    ''')
    sp(C_ + 'setSampleAtTime', 'call Data::setSampleAtTime(_data, arg0, arg1)')
    sp(C_ + 'setGlobalSample', 'call Sample::operator=(_data._sample, arg0) || call Data::setGlobalSample(_data, arg0)')
    GR = '{_data._hasGradient}'
    ZERO = 'Sample(_data._dimensions, Mesh::nVertices(_mesh))~setZero()'
    sp(C_ + 'initializeWithZeroAtTime', '''
        call Data::setSampleAtTime(_data, arg0, Sample(_data._dimensions, Mesh::nVertices(_mesh))~setZero()) | !GR
        call Data::setSampleAtTime(_data, arg0, Sample(_data._dimensions, Mesh::nVertices(_mesh), _mesh._dimensions)~setZero()) | GR
    '''.replace('GR', GR))
    sp(C_ + 'reinitialize', '''
        call Waveform::setAllSamples(_data._waveform, %s)
        call Waveform::setAllSamples(_previousTimeStepsStorage, %s)
    ''' % (ZERO, ZERO))
    sp(C_ + 'getPreviousValuesAtTime', 'ret return() = Waveform::sample(_previousTimeStepsStorage, arg0)')
    sp(C_ + 'getPreviousGradientsAtTime', 'ret return() = Waveform::sampleGradients(_previousTimeStepsStorage, arg0)')
    for m, part in (('previousIteration', 'values'), ('previousIterationGradients', 'gradients')):
        sp(C_ + m, 'ret return() = *back(*_previousTimeStepsStorage*).sample.%s || ret return() = *Waveform::getSampleAtEnd(_previousTimeStepsStorage).%s' % (part, part))
    for m, part in (('values', 'values'), ('gradients', 'gradients')):
        sp(C_ + m, 'ret return() = _data._sample.%s' % part)
    sp(C_ + 'waveform', 'ret return() = _data._waveform')
    sp('precice::time::Sample::setZero', '''
        some call *setZero(values)
        some call *setZero(gradients)
    ''')

    R = 'time grids'
    G_ = 'precice::time::TimeGrids::'
    TIMES = 'Waveform::getTimes(CouplingData::waveform(idx(arg0, elem(arg1))))'
    sp(G_ + 'TimeGrids', '''
        for arg1: call map::*(_timeGrids, *elem(arg1), DenseBase::tail(TIMES, 1)*) | {arg2} || for arg1: call map::*(_timeGrids, elem(arg1), [arg2 ? *DenseBase::tail(TIMES, 1)* : *TIMES*])
        for arg1: call map::*(_timeGrids, *elem(arg1), TIMES*) | !{arg2} || for arg1: call map::*(_timeGrids, elem(arg1), [arg2 ? *DenseBase::tail(TIMES, 1)* : *TIMES*])
    '''.replace('TIMES', TIMES))
    sp(G_ + 'getTimeGridAfter', '''
        for idx(_timeGrids, arg0): call vector::push_back(*, elem(idx(_timeGrids, arg0))) | {math::greater(elem(idx(_timeGrids, arg0)), arg1, 1e-14)}
    ''')
    G = 'elem(_timeGrids)'
    T = 'Waveform::getTimes(CouplingData::waveform(idx(arg0, %s.first)))' % G
    ONE = '{(size(%s.second) == 1)}' % G
    sp(G_ + 'moveTimeGridToNewWindow', '''
        for _timeGrids: store TimeGrids::_timeGrids(*) = DenseBase::tail(TT, 1) | ONE
        for _timeGrids: store TimeGrids::_timeGrids(*) = DenseBase::unaryExpr(OLD, lambda{REL*NMAX+-1*REL*NMIN+NMIN}) | !ONE
    '''.replace('REL', '(-1*OLD0+p0 / -1*OLD0+OLD1)').replace('OLD0', 'idx(*, 0)').replace('OLD1', 'idx(*, -1*1+size(OLD))').replace('NMAX', 'idx(*TT*, -1*1+size(TT))').replace('NMIN', 'idx(*TT*, 0)').replace('OLD', '*second').replace('TT', T).replace('ONE', ONE))

    R = 'comparisons of times'
    for m, c in (('equals', '!{(arg2 < std::abs(-1*arg1+arg0))}'), ('greater', '{(0 < -1*arg1+-1*arg2+arg0)}'), ('smaller', '{(-1*arg1+arg0+arg2 < 0)}'),
                 ('greaterEquals', '!{(-1*arg1+arg0+arg2 < 0)}'), ('smallerEquals', '!{(0 < -1*arg1+-1*arg2+arg0)}')):
        seen = False
        for f in ctx.funcs('precice::math::' + m):
            if 'double' not in f.d.ps[0] or 'Matrix' in f.d.ps[0]:
                continue
            seen = True
            ctx.returns(R, ctx.analyse(f), c)
        ctx.need(R, int(seen), 1)
