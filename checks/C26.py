"""Radial-basis mappings: the interpolation systems, their solution, the gathering over ranks and the partition of unity."""
from check import *
from api import *

MIN = 100
M_ = 'precice::mapping::'
KEEP = ('computeSquaredDifference', 'fillPolynomialEntries', 'buildMatrixCLU', 'buildMatrixA', 'computeInverseDiagonal', 'reduceActiveAxis',
        'getNumberOfPolynomials', 'computeNormalizedWeight', '_computeCPU', 'evaluateRippaLOOCVerror')
FILES = ('src/mapping/RadialBasisFctSolver.hpp', 'src/mapping/RadialBasisFctMapping.hpp', 'src/mapping/PartitionOfUnityMapping.hpp',
         'src/mapping/impl/SphericalVertexCluster.hpp')
BASES = ('CompactPolynomialC0', 'CompactPolynomialC2', 'CompactPolynomialC4', 'CompactPolynomialC6', 'CompactPolynomialC8', 'CompactThinPlateSplinesC2',
         'Gaussian', 'InverseMultiquadrics', 'Multiquadrics', 'ThinPlateSplines', 'VolumeSplines')
DIST = 'mapping::computeSquaredDifference(%s, %s, %s)'
ALL = 'init(const std::array<bool, 3>, (init(typename __array_traits<bool, 3UL>::_Type, (1, 1, 1))))'


def run(ctx):
    distances(ctx)
    polynomials(ctx)
    matrices(ctx)
    decomposition(ctx)
    solution(ctx)
    cached(ctx)
    gathered(ctx)
    clusters(ctx)
    weights(ctx)
    unity(ctx)


def terms(t, k):
    todo, got = [t], []
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        if hasattr(x, 'k'):
            if x.k in k:
                got.append(x)
            todo += list(x.a)
    return got


def instances(ctx, name, nparams=None, every=False):
    """the instantiations of a function (template); one of them unless the code chosen depends on the arguments"""
    keep = lambda A, F, D: D.n not in KEEP and ctx.policy(A, F, D)
    cls, _, fn = name.rpartition('::')
    Fs = [F for F in ctx.P.funcs.values() if F.body is not None and not F.dep and F.d.n == fn and re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', F.d.q).endswith('::' + name) and F.file in FILES
          and (nparams is None or len(F.params) == nparams)]
    if not Fs:
        raise AnalysisError('no instantiation of %s' % name)
    Fs.sort(key=lambda F: str(F.d.u))
    for F in Fs:
        ctx.seen.add(F.d.u)
    return [ctx.analyse(F, policy=keep) for F in (Fs if every else Fs[:1])]


def spec(ctx, rule, name, text, nparams=None):
    f = instances(ctx, name, nparams)[0]
    ctx.spec(rule, f, text)
    return f


def counters(ctx, rule, f, e, t, what, want):
    """the running values (phi) inside this term: each starts as one of the wanted ones does and changes like it in every pass of the loop"""
    got, todo, done = [], list(terms(t, ('phi',))), set()
    for ph in todo:
        if str(ph) in done:
            continue
        done.add(str(ph))
        init, fin = f.carried(e, ph)
        got.append((f.n(init) if init is not None else None, f.n(fin) if fin is not None else None))
    bad = [g for g in got if g[0] is None or g[1] is None or not any(match(a, g[0]) and any(match(x, g[1]) for x in b) for a, b in want)]
    ctx.ob(rule, '%s: %s' % (f.name, what), bool(got) and not bad, e.loc, 'found %s' % (bad or got))


def distances(ctx):
    """the distance between two points ignores the dead axes and nothing else"""
    f = spec(ctx, 'distance', 'mapping::computeSquaredDifference', """
        ret return() = std::inner_product(begin(*), end(*), begin(*), 0)
    """)
    n = 0
    for e in f.events:
        if e.kind == 'store' and e.loops and 'arg2' in f.n(e.val):
            n += 1
            ctx.ob('distance', 'the difference of a component, if its axis is active', match('-1*elem(arg1)*idx(arg2, iv)+idx(arg0, iv)*idx(arg2, iv)', f.n(e.val)) or match('elem(arg1)*idx(arg2, iv)-1*idx(arg0, iv)*idx(arg2, iv)', f.n(e.val)), e.loc, f.n(e.val))
            ctx.ob('distance', 'of every component', f.rng(e.loops[-1]) in ('arg1', '[0, size(arg1))', '[0, 3)') and f.norm_gate(e.g) == 1, e.loc, str(f.rng(e.loops[-1])))
    ctx.need('distance', n, 1)


def polynomials(ctx):
    """one row per vertex: one, followed by the coordinates along the active axes"""
    I = 'adaptors::operator|(arg2, indexed())'
    f = spec(ctx, 'polynomial', 'mapping::fillPolynomialEntries', """
        for <I>: store lv(idx($[arg0], tup(operator(), (index_value::index(elem(<I>)), arg3)))) = 1
        for <I> >> arg4: store lv(idx($[arg0], tup(operator(), (index_value::index(elem(<I>)), 1+arg3+phi)))) = idx(Mesh::vertex(arg1, index_value::value(elem(<I>)))._coords, iv) | {elem(arg4)}
    """.replace('<I>', I))
    for e in f.store('lv'):
        for t in e.args:
            if len(e.loops) == 2:
                counters(ctx, 'polynomial', f, e, t, 'the columns of the coordinates are consecutive', [('0', ('[elem(arg4) ? 1+phi : phi]', '[!elem(arg4) ? phi : 1+phi]'))])
    n = spec(ctx, 'polynomial', 'RadialBasisFctSolver::getNumberOfPolynomials', """
        ret return() = 1+contains(_localActiveAxis, 1) || ret return() = 4-1*contains(_localActiveAxis, 0)
    """)
    spec(ctx, 'polynomial', 'mapping::reduceActiveAxis', """
        for arg2: store lv(idx(*, iv)) = pair(iv, numeric_limits::max()) | !{elem(arg2)}
        for arg2: store lv(idx(*, iv)) = pair(iv, std::abs(-1*Vertex::coord(Mesh::vertex(arg0, std::minmax_element(begin(arg1), end(arg1), lambda{<(Vertex::coord(Mesh::vertex(arg0, p0), iv) < Vertex::coord(Mesh::vertex(arg0, p1), iv))>}).first), iv)+Vertex::coord(Mesh::vertex(arg0, std::minmax_element(begin(arg1), end(arg1), lambda{<(Vertex::coord(Mesh::vertex(arg0, p0), iv) < Vertex::coord(Mesh::vertex(arg0, p1), iv))>}).second), iv))) | {elem(arg2)}
        S) call std::sort(begin(*), end(*), lambda{<(p0.second < p1.second)>})
        Z) store par(idx(arg2, idx(*, 0).first)) = 0
        order S < Z
    """)


def matrices(ctx):
    """the system matrix: the basis function at the distance of each pair of input vertices; the evaluation matrix: of output and input vertices"""
    n = '[(arg4 == Polynomial::ON) ? -1*contains(arg3, 0)+4*1 : 0]+size(arg2)'
    f = spec(ctx, 'matrices', 'mapping::buildMatrixCLU', """
        call DenseBase::setZero(MatrixXd(<N>, <N>)) | {(arg4 == Polynomial::ON)}
        S) for arg2 >> while: store lv(idx($[MatrixXd(<N>, <N>)], tup(operator(), (phi, phi)))) = *::evaluate(arg0, sqrt(mapping::computeSquaredDifference(Mesh::vertex(arg1, elem(arg2))._coords, Mesh::vertex(arg1, phi)._coords, arg3))) | !{(end(arg2) == phi)}
        P) call mapping::fillPolynomialEntries(*, arg1, arg2, size(arg2), arg3) | {(arg4 == Polynomial::ON)}
        T) store call(MatrixBase::triangularView(*)) = DenseBase::transpose(*)
        order S < P < T
    """.replace('<N>', n))
    for e in f.store('lv'):
        if len(e.loops) == 2:
            phis = []
            for t in list(e.args) + [e.val]:
                for x in terms(t, ('phi',)):
                    i, o = f.carried(e, x)
                    if i is None:
                        continue
                    i2 = f.n(i)
                    if i.k == 'phi':
                        ii, oo = f.carried(e, i)
                        i2 = 'outer %s, %s' % (f.n(ii), f.n(oo)) if ii is not None else 'outer'
                    phis.append((i2, f.n(o)))
            ok = {('elem(arg2)', 'phi~operator++()'), ('outer 0, 1+phi', '1+phi'), ('0', '1+phi')}
            ctx.ob('matrices', 'buildMatrixCLU: rows from the first vertex, columns from the one of the row', set(phis) <= ok and ('outer 0, 1+phi', '1+phi') in phis and ('elem(arg2)', 'phi~operator++()') in phis, e.loc, 'found %s' % sorted(set(phis)))
    views = [x for e in f.events for x in [e.q] if e.kind == 'call' and 'triangularView' in e.q]
    ctx.need('matrices', len(views), 1)
    O, I = 'adaptors::operator|(arg4, indexed())', 'adaptors::operator|(arg2, indexed())'
    spec(ctx, 'matrices', 'mapping::buildMatrixA', """
        S) for <O> >> <I>: store lv(idx($[MatrixXd(size(arg4), [(arg6 == Polynomial::ON) ? -1*contains(arg5, 0)+4*1 : 0]+size(arg2))], tup(operator(), (index_value::index(elem(<O>)), index_value::index(elem(<I>)))))) = *::evaluate(arg0, sqrt(mapping::computeSquaredDifference(Mesh::vertex(arg3, index_value::value(elem(<O>)))._coords, Mesh::vertex(arg1, index_value::value(elem(<I>)))._coords, arg5)))
        P) call mapping::fillPolynomialEntries(*, arg3, arg4, size(arg2), arg5) | {(arg6 == Polynomial::ON)}
        order S < P
    """.replace('<O>', O).replace('<I>', I))


def decomposition(ctx):
    """the system of the input vertices is decomposed and checked; the separate polynomial uses axes along which the vertices spread"""
    AX = 'init(array<bool, 3>, (init(typename __array_traits<bool, 3UL>::_Type, (0, 0, 0))))~transform(arg5, <!_Bit_reference::operator bool(elem(arg5))>)'
    AX = '*~transform(arg5, <!_Bit_reference::operator bool(elem(arg5))>)'
    seen = set()
    for f in instances(ctx, 'RadialBasisFctSolver::RadialBasisFctSolver', 7, every=True):
        llt = bool(f.call('MatrixBase::llt')) or any(e.kind == 'store' and 'llt' in f.n(e.val) for e in f.store('RadialBasisFctSolver::_decMatrixC'))
        if llt in seen:
            continue
        seen.add(llt)
        ctx.spec('decomposition', f, """
            <D>
            call mapping::buildMatrixA(arg0, arg1, arg2, arg3, arg4, <AX>, arg6)
            store RadialBasisFctSolver::_matrixA(*) = mapping::buildMatrixA(arg0, arg1, arg2, arg3, arg4, <AX>, arg6)
            L) some store RadialBasisFctSolver::_localActiveAxis(*) = <AX> | {(arg6 == Polynomial::SEPARATE)}
            for do BREAKS: call PlainObjectBase::resize(_matrixQ*, size(arg2), *) | {(arg6 == Polynomial::SEPARATE)}
            Q) for do BREAKS: call mapping::fillPolynomialEntries(_matrixQ*, arg1, arg2, 0, _localActiveAxis) | {(arg6 == Polynomial::SEPARATE)}
            for do BREAKS: call mapping::reduceActiveAxis(arg1, arg2, _localActiveAxis) | {(100000 < *)} & {(arg6 == Polynomial::SEPARATE)}
            call PlainObjectBase::resize(*, size(arg4), *) | {(arg6 == Polynomial::SEPARATE)}
            V) call mapping::fillPolynomialEntries(*, arg3, arg4, 0, _localActiveAxis) | {(arg6 == Polynomial::SEPARATE)}
            store RadialBasisFctSolver::_qrMatrixQ(*) = MatrixBase::colPivHouseholderQr(_matrixQ) | {(arg6 == Polynomial::SEPARATE)}
            order L < Q < V
        """.replace('<D>', 'store RadialBasisFctSolver::_decMatrixC(*) = MatrixBase::%s(mapping::buildMatrixCLU(arg0, arg1, arg2, <AX>, arg6)) @ *' % ('llt' if llt else 'colPivHouseholderQr') if 0 else 'some store RadialBasisFctSolver::_decMatrixC(*) = MatrixBase::%s(mapping::buildMatrixCLU(arg0, arg1, arg2, <AX>, arg6))' % ('llt' if llt else 'colPivHouseholderQr')).replace('<AX>', AX))
        th = f.throws()
        bad = f.atoms('(LLT::info(*) == Eigen::Success)') if llt else f.atoms('ColPivHouseholderQR::isInvertible(*)')
        ctx.ob('decomposition', '%s: a system that cannot be %s is an error' % (f.name, 'factorised' if llt else 'inverted'), bool(th) and bool(bad), '%s:%d' % (f.F.file, f.F.line), '')
    ctx.need('decomposition', len(seen), 2)


SOLVE = 'SolverBase::solve(_decMatrixC, %s)'
SEP = '{(arg1 == Polynomial::SEPARATE)}'


def solution(ctx):
    """out = A C^-1 (in - Q p) + V p with the least-squares polynomial p; and its transpose"""
    spec(ctx, 'solution', 'RadialBasisFctSolver::solveConsistent', """
        P) only call SolverBase::solve(_qrMatrixQ, *) | <S>
        Q) call MatrixBase::operator-=(arg0, SolverBase::solve(_qrMatrixQ, arg0)*_matrixQ) | <S>
        C) call SolverBase::solve(_decMatrixC, *)
        order P < Q < C
        ret return() = MatrixXd(MatrixXd(SolverBase::solve(_decMatrixC, *arg0*))*_matrixA)+*SolverBase::solve(_qrMatrixQ, arg0)*_matrixV | <S>
        ret return() = MatrixXd(MatrixXd(SolverBase::solve(_decMatrixC, arg0))*_matrixA) | !<S>
    """.replace('<S>', SEP))
    AU = 'MatrixXd(DenseBase::transpose(_matrixA)*arg0)'
    MU = 'MatrixXd(SolverBase::solve(_decMatrixC, <AU>))'.replace('<AU>', AU)
    spec(ctx, 'solution', 'RadialBasisFctSolver::solveConservative', """
        call MatrixBase::operator-=(MatrixXd(DenseBase::transpose(_matrixV)*arg0), DenseBase::transpose(_matrixQ)*<MU>) | <S>
        call MatrixBase::operator-=(<MU>, MatrixXd(SolverBase::solve(SolverBase::transpose(_qrMatrixQ), *))) | <S>
        ret return() = -1*MatrixXd(SolverBase::solve(SolverBase::transpose(_qrMatrixQ), DenseBase::operator-(-1*DenseBase::transpose(_matrixQ)*<MU>+MatrixXd(DenseBase::transpose(_matrixV)*arg0))))+<MU> | <S>
        ret return() = <MU> | !<S>
    """.replace('<MU>', MU).replace('<S>', SEP))


def cached(ctx):
    """the just-in-time variants use the same system"""
    spec(ctx, 'cache', 'RadialBasisFctSolver::computeCacheData', """
        store parameter(arg2) = SolverBase::solve(_qrMatrixQ, arg0) | <S>
        P) only call SolverBase::solve(_qrMatrixQ, *) | <S>
        Q) call MatrixBase::operator-=(arg0, SolverBase::solve(_qrMatrixQ, arg0)*_matrixQ) | <S>
        C) store parameter(arg3) = SolverBase::solve(_decMatrixC, *arg0*)
        order P < Q < C
    """.replace('<S>', SEP))
    J = 'adaptors::operator|(arg4, indexed())'
    f = spec(ctx, 'cache', 'RadialBasisFctSolver::interpolateAt', """
        for <J>: call MatrixBase::operator+=(phi, *::evaluate(arg3, sqrt(mapping::computeSquaredDifference(arg0._coords, Mesh::vertex(arg5, index_value::value(elem(<J>)))._coords, <ALL>)))*DenseBase::transpose(idx($[arg2], tup(row, (index_value::index(elem(<J>)))))))
        call MatrixBase::operator+=(*, DenseBase::transpose(idx($[arg1], tup(row, (0))))) | !{(size(arg1) == 0)}
        for _localActiveAxis: call MatrixBase::operator+=(phi, DenseBase::transpose(idx($[arg1], tup(row, (phi))))*idx(arg0._coords, iv)) | !{(size(arg1) == 0)} & {elem(_localActiveAxis)}
    """.replace('<J>', J).replace('<ALL>', ALL))
    running(ctx, f, 1)
    J = 'adaptors::operator|(arg5, indexed())'
    f = spec(ctx, 'cache', 'RadialBasisFctSolver::addWriteDataToCache', """
        for <J>: call MatrixBase::operator+=(idx($[arg3], tup(row, (index_value::index(elem(<J>))))), *::evaluate(arg4, sqrt(mapping::computeSquaredDifference(arg0._coords, Mesh::vertex(arg6, index_value::value(elem(<J>)))._coords, <ALL>)))*DenseBase::transpose(arg1))
        call MatrixBase::operator+=(idx($[arg2], tup(row, (0))), DenseBase::transpose(arg1)) | !{(size(arg2) == 0)}
        for _localActiveAxis: call MatrixBase::operator+=(idx($[arg2], tup(row, (phi))), DenseBase::transpose(arg1)*idx(arg0._coords, iv)) | !{(size(arg2) == 0)} & {elem(_localActiveAxis)}
    """.replace('<J>', J).replace('<ALL>', ALL))
    running(ctx, f, 0)
    spec(ctx, 'cache', 'RadialBasisFctSolver::evaluateConservativeCache', """
        C) store parameter(arg2) = SolverBase::solve(_decMatrixC, arg1)
        E) call MatrixBase::operator-=(arg0, DenseBase::transpose(_matrixQ)*SolverBase::solve(_decMatrixC, arg1)) | !{(size(arg0) == 0)}
        O) call MatrixBase::operator-=(SolverBase::solve(_decMatrixC, arg1), MatrixXd(SolverBase::solve(SolverBase::transpose(_qrMatrixQ), DenseBase::operator-(arg0)))) | !{(size(arg0) == 0)}
        order C < E < O
    """)


def running(ctx, f, pos):
    """the rows of the linear contributions follow that of the constant one"""
    n = 0
    for e in f.events:
        if e.kind == 'call' and e.q.endswith('operator+=') and e.loops and f.rng(e.loops[-1]) == '_localActiveAxis':
            n += 1
            for t in terms(e.args[pos], ('tup',)):
                counters(ctx, 'cache', f, e, t, 'the rows of the coordinates are consecutive', [('1', ('[elem(_localActiveAxis) ? 1+phi : phi]', '[!elem(_localActiveAxis) ? phi : 1+phi]'))])
    ctx.need('cache', n, 1)


CO, SE, PR = '{Mapping::hasConstraint(this(), Mapping::CONSERVATIVE)}', '{IntraComm::isSecondary()}', '{IntraComm::isPrimary()}'
COM, ALLS = 'IntraComm::getCommunication()', 'IntraComm::allSecondaryRanks()'


def R(text):
    for a, b in (('<CO>', CO), ('<SE>', SE), ('<PR>', PR), ('<COM>', COM), ('<ALLS>', ALLS), ('<RANK>', 'elem(%s)' % ALLS)):
        text = text.replace(a, b)
    return text


def gathered(ctx):
    """the primary rank solves for the owned input vertices and all output vertices of all ranks, in the order of the ranks"""
    f = spec(ctx, 'gathering', 'RadialBasisFctMapping::computeMapping', R("""
        F) call mesh::filterMesh(*, _output, lambda{p0._owner}) | <CO> & (<SE> | <PR>)
        G) call mesh::filterMesh(*, _input, lambda{p0._owner}) | !<CO> & (<SE> | <PR>)
        S) call com::sendMesh(<COM>, 0, out(mesh::filterMesh)) | <SE>
        T) call com::sendMesh(<COM>, 0, _input) | <SE> & <CO>
        U) call com::sendMesh(<COM>, 0, _output) | <SE> & !<CO>
        order S < T
        order S < U
        call Mesh::addMesh(*, out(mesh::filterMesh)) | !<SE> & <PR>
        some call Mesh::addMesh(*, _output) | !<SE> & <PR> & !<CO>
        some call Mesh::addMesh(*, _input) | !<SE> & <PR> & <CO>
        some call Mesh::addMesh(*, _output) | !<SE> & !<PR> & <CO>
        some call Mesh::addMesh(*, _input) | !<SE> & !<PR> & <CO>
        some call Mesh::addMesh(*, _input) | !<SE> & !<PR> & !<CO>
        some call Mesh::addMesh(*, _output) | !<SE> & !<PR> & !<CO>
        for <ALLS>: call com::receiveMesh(<COM>, <RANK>, *) | !<SE> & <PR>
        for <ALLS>: call Mesh::addMesh(*, out(com::receiveMesh)) | !<SE> & <PR>
        new mapping::RadialBasisFctSolver(_basisFunction, *, boost::irange(0, Mesh::nVertices(*)), *, boost::irange(0, Mesh::nVertices(*)), _deadAxis, _polynomial*) | !<SE> & !{(0 < *SizeOfPack*)}
        when store RadialBasisFctMapping::_rbfSolver(*) = new(precice::mapping::RadialBasisFctSolver*) | !<SE> & !{(0 < *SizeOfPack*)}
        some store Mapping::_hasComputedMapping(*) = 1
    """))
    inner = [e for e in f.events if e.kind == 'call' and e.loops and f.rng(e.loops[-1]) == ALLS and (e.q.endswith('receiveMesh') or e.q.endswith('addMesh'))]
    got = []
    for e in sorted(inner, key=lambda e: e.seq):
        if e.q.endswith('receiveMesh'):
            got.append('receive')
        else:
            t = [x for x in terms(e.args[0], ('phi',))]
            i = f.carried(e, t[0])[0] if t else None
            got.append('?' if i is None else 'in' if f.n(i).endswith('~addMesh(out(mesh::filterMesh))') else 'out' if re.search(r'~addMesh\(\[?.*(_input|_output)\]?\)$', f.n(i)) else '?')
    ctx.ob('gathering', 'computeMapping: a rank sends the owned input vertices first and the output vertices second', got == ['receive', 'in', 'receive', 'out'], '%s:%d' % (f.F.file, f.F.line), 'received in the order %s' % got)
    for e in f.events:
        if e.kind == 'new' and 'RadialBasisFctSolver' in e.q:
            a = [f.n(x) for x in e.args]
            ctx.ob('gathering', 'computeMapping: the solver gets all vertices of the gathered input mesh', 'filterMesh' in a[1] and 'Mesh::nVertices(%s)' % a[1] in a[2], e.loc, a[1][-200:])
            ctx.ob('gathering', 'computeMapping: the solver gets all vertices of the gathered output mesh', 'filterMesh' not in a[3] and 'Mesh::nVertices(%s)' % a[3] in a[4], e.loc, a[3][-200:])
            CS = 'Mapping::hasConstraint(this(), Mapping::CONSERVATIVE)'
            ctx.ob('gathering', 'computeMapping: without ranks the input mesh is that of the direction of the constraint', '~addMesh([%s ? _output : _input])' % CS in a[1] and '~addMesh([%s ? _input : _output])' % CS in a[3], e.loc, a[1][-200:])
    N = 'arg0.dataDims*lout(0, [elem(_output._vertices)._owner ? 1+phi : phi])'
    f = spec(ctx, 'gathering', 'RadialBasisFctMapping::mapConservative', R("""
        A) call Communication::sendRange(<COM>, arg0.values, 0) | <SE>
        B) call Communication::send(<COM>, <N>, 0) | <SE>
        order A < B
        call vector::push_back(vector(), <N>) | !<SE>
        C) for <ALLS>: call Communication::receiveRange(<COM>, <RANK>, *) | !<SE>
        D) for <ALLS>: call Communication::receive(<COM>, *, <RANK>) | !<SE>
        order C < D
        for <ALLS>: call vector::insert(phi, *end(phi)*, begin(Communication::receiveRange(*)), end(Communication::receiveRange(*))) | !<SE>
        for <ALLS>: call vector::push_back(phi, out(Communication::receive)) | !<SE>
        call RadialBasisFctSolver::solveConservative(_rbfSolver, MatrixXd(MapToMatrix(lout(*), RadialBasisFctSolver::getOutputSize(_rbfSolver), arg0.dataDims, OuterStride(arg0.dataDims))), _polynomial) | !<SE>
        for [0, Mesh::nVertices(_output)) >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*iv1+iv)) = idx($[Map(PlainObjectBase::data(RowMatrixXd(DenseBase::block(RadialBasisFctSolver::solveConservative(*), 0, 0, _output._globalNumberOfVertices, arg0.dataDims))), *)], iv+phi) | !<SE> & <PR> & {Mesh::vertex(_output, iv)._owner}
        for <ALLS>: call Communication::sendRange(<COM>, span(MapBase::data(Map(PlainObjectBase::data(RowMatrixXd(DenseBase::block(RadialBasisFctSolver::solveConservative(*), 0, 0, _output._globalNumberOfVertices, arg0.dataDims))), *))+phi, idx(*, <RANK>)), <RANK>) | !<SE> & <PR>
        store parameter(arg1) = Map(PlainObjectBase::data(RowMatrixXd(DenseBase::block(RadialBasisFctSolver::solveConservative(*), 0, 0, _output._globalNumberOfVertices, arg0.dataDims))), *) | !<SE> & !<PR>
        E) call Communication::receiveRange(<COM>, 0, *) | <SE>
        order B < E
        for [0, Mesh::nVertices(_output)) >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*iv1+iv)) = idx($[Communication::receiveRange(<COM>, 0, *)], iv+phi) | <SE> & {Mesh::vertex(_output, iv)._owner}
    """.replace('<N>', N)))
    scattered(ctx, f)
    for e in f.store('par'):
        counters(ctx, 'gathering', f, e, e.val, 'the values of the owned vertices follow each other', [('0', ('[Mesh::vertex(_output, iv)._owner ? lout(phi, 1+iv+phi) : phi]', '[!Mesh::vertex(_output, iv)._owner ? phi : lout(phi, 1+iv+phi)]', '[Mesh::vertex(_output, iv)._owner ? arg0.dataDims+phi : phi]'))])
    OWN = 'Mesh::getOwnedVertexData(_input, arg0.values)'
    f = spec(ctx, 'gathering', 'RadialBasisFctMapping::mapConsistent', R("""
        A) call Communication::sendRange(<COM>, <OWN>, 0) | <SE>
        B) call Communication::send(<COM>, size(arg1), 0) | <SE>
        order A < B
        call vector::push_back(vector(), size(arg1)) | !<SE>
        some call std::copy(PlainObjectBase::data(<OWN>), *size(<OWN>), begin(vector(_input._globalNumberOfVertices*arg0.dataDims, 0*))) | !<SE> & <PR>
        some call std::copy(PlainObjectBase::data(arg0.values), *size(arg0.values), begin(vector(_input._globalNumberOfVertices*arg0.dataDims, 0*))) | !<SE> & !<PR>
        C) for <ALLS>: call Communication::receiveRange(<COM>, <RANK>, *) | !<SE> & <PR>
        D) for <ALLS>: call Communication::receive(<COM>, *, <RANK>) | !<SE> & <PR>
        order C < D
        for <ALLS>: call std::copy(begin(Communication::receiveRange(<COM>, <RANK>, *)), end(Communication::receiveRange(<COM>, <RANK>, *)), begin(*)+phi) | !<SE> & <PR>
        for <ALLS>: call vector::push_back(phi, out(Communication::receive)) | !<SE> & <PR>
        call DenseBase::Zero(RadialBasisFctSolver::getInputSize(_rbfSolver), arg0.dataDims) | !<SE>
        store lv(idx(*, tup(block, (0, 0, _input._globalNumberOfVertices, arg0.dataDims)))) = MapToMatrix(*, _input._globalNumberOfVertices, arg0.dataDims, OuterStride(arg0.dataDims)) | !<SE>
        call RadialBasisFctSolver::solveConsistent(_rbfSolver, *, _polynomial) | !<SE>
        store parameter(arg1) = Map(PlainObjectBase::data(RowMatrixXd(RadialBasisFctSolver::solveConsistent(*))), idx(*, 0)*) | !<SE>
        for <ALLS>: call Communication::sendRange(<COM>, span(PlainObjectBase::data(RowMatrixXd(RadialBasisFctSolver::solveConsistent(*)))+phi, idx(*, <RANK>)), <RANK>) | !<SE> & <PR>
        E) call Communication::receiveRange(<COM>, 0, *) | <SE>
        order B < E
        store parameter(arg1) = Map(Communication::receiveRange(*), size(Communication::receiveRange(*))*) | <SE>
    """.replace('<OWN>', OWN)))
    scattered(ctx, f)
    n = 0
    for e in f.call('std::copy'):
        if e.loops:
            n += 1
            for t in [x for x in terms(e.args[2], ('phi',))]:
                i, o = f.carried(e, t)
                if o is not None and 'copyfrom' in f.n(o):
                    continue
                ctx.ob('gathering', 'mapConsistent: the values of a rank follow those of the ranks before', i is not None and f.n(i) == 'size(%s)' % OWN and match('phi+size(Communication::receiveRange(*))', f.n(o)), e.loc, '' if i is None else '%s, %s' % (f.n(i), f.n(o)))
    ctx.need('gathering', n, 1)


def scattered(ctx, f):
    """what a rank is sent starts behind what all ranks before it were sent"""
    n = 0
    for e in f.call('Communication::sendRange'):
        if e.loops:
            ph = [(i, o) for i, o in (f.carried(e, t) for t in terms(e.args[1], ('phi',))) if i is not None]
            n += 1
            ctx.ob('gathering', '%s: the values of a rank start behind those of the ranks before' % f.name, bool(ph) and all(match('idx(*, 0)', f.n(i)) and match('idx(*, elem(%s))+phi' % ALLS, f.n(o)) for i, o in ph), e.loc, str([(f.n(i)[:80], f.n(o)[:80]) for i, o in ph]))
    ctx.need('gathering', n, 1)


def clusters(ctx):
    """a cluster maps the data of its vertices, multiplied by the weights of the output vertices"""
    C = 'SphericalVertexCluster::'
    spec(ctx, 'clusters', C + 'SphericalVertexCluster', """
        I) some call flat_set::insert(*, begin(Index::getVerticesInsideBox(arg4._index, arg0, arg1)), end(Index::getVerticesInsideBox(arg4._index, arg0, arg1)))
        O) some call flat_set::insert(*, begin(Index::getVerticesInsideBox(arg5._index, arg0, *arg1)), end(Index::getVerticesInsideBox(arg5._index, arg0, *arg1)))
        call RadialBasisFctSolver::operator=(*, RadialBasisFctSolver(arg2, arg4, *arg4._index*, arg5, *arg5._index*, vector(arg4._dimensions, 0*), arg3)) | !{(size(*getVerticesInsideBox(arg4._index, arg0, arg1)*) == 0)}
        store SphericalVertexCluster::_center(*) = arg0
        store SphericalVertexCluster::_radius(*) = arg1
        store SphericalVertexCluster::_polynomial(*) = arg3
        store SphericalVertexCluster::_function(*) = arg2
        store SphericalVertexCluster::_weightingFunction(*) = CompactPolynomialC2(arg1)
    """, 6)
    spec(ctx, 'clusters', C + 'setNormalizedWeight', """
        call PlainObjectBase::resize(_normalizedWeights, size(_outputIDs)) | {(size(_normalizedWeights) == 0)}
        store SphericalVertexCluster::_normalizedWeights(idx(_normalizedWeights*, flat_tree::index_of(_outputIDs, flat_tree::find(_outputIDs, arg1)))) = arg0
    """)
    spec(ctx, 'clusters', C + 'mapConservative', """
        for _outputIDs >> [0, arg0.dataDims): store lv(idx($[MatrixXd(RadialBasisFctSolver::getOutputSize(_rbfSolver), arg0.dataDims)], tup(operator(), (iv1, iv)))) = idx(_normalizedWeights, iv1)*idx(arg0.values, arg0.dataDims*flat_tree::nth(_outputIDs, iv1)+iv)
        call RadialBasisFctSolver::solveConservative(_rbfSolver, *, _polynomial)
        for _inputIDs >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*flat_tree::nth(_inputIDs, iv1)+iv)) = DenseCoeffsBase::operator()(RadialBasisFctSolver::solveConservative(*), iv1, iv)+*idx(*, arg0.dataDims*flat_tree::nth(_inputIDs, iv1)+iv) || for _inputIDs >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*flat_tree::nth(_inputIDs, iv1)+iv)) = idx(*, arg0.dataDims*flat_tree::nth(_inputIDs, iv1)+iv)+DenseCoeffsBase::operator()(RadialBasisFctSolver::solveConservative(*), iv1, iv)
    """)
    spec(ctx, 'clusters', C + 'mapConsistent', """
        for _inputIDs >> [0, arg0.dataDims): store lv(idx($[MatrixXd(RadialBasisFctSolver::getInputSize(_rbfSolver), arg0.dataDims)], tup(operator(), (iv1, iv)))) = idx(arg0.values, arg0.dataDims*flat_tree::nth(_inputIDs, iv1)+iv)
        call RadialBasisFctSolver::solveConsistent(_rbfSolver, *, _polynomial)
        for _outputIDs >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*flat_tree::nth(_outputIDs, iv1)+iv)) = DenseCoeffsBase::operator()(RadialBasisFctSolver::solveConsistent(*), iv1, iv)*idx(_normalizedWeights, iv1)+idx(arg1, arg0.dataDims*flat_tree::nth(_outputIDs, iv1)+iv)
    """)
    spec(ctx, 'clusters', C + 'evaluateConservativeCache', """
        call RadialBasisFctSolver::evaluateConservativeCache(_rbfSolver, arg0, arg1, MatrixXd(size(_inputIDs), PlainObjectBase::cols(arg1)))
        for _inputIDs: call MatrixBase::operator+=(idx($[arg2], tup(col, (flat_tree::nth(_inputIDs, iv)))), idx(*, tup(row, (iv))))
    """)
    spec(ctx, 'clusters', C + 'computeCacheData', """
        for _inputIDs: store lv(idx($[MatrixXd(RadialBasisFctSolver::getInputSize(_rbfSolver), *::rows(arg0))], tup(row, (iv)))) = DenseBase::col(arg0, flat_tree::nth(_inputIDs, iv))
        call RadialBasisFctSolver::computeCacheData(_rbfSolver, *, _polynomial, arg1, arg2)
    """)
    spec(ctx, 'clusters', C + 'initializeCacheData', """
        call PlainObjectBase::resize(arg0, RadialBasisFctSolver::getNumberOfPolynomials(_rbfSolver), arg2) | {(_polynomial == Polynomial::SEPARATE)}
        call PlainObjectBase::resize(arg1, size(_inputIDs), arg2)
    """)
    spec(ctx, 'clusters', C + 'interpolateAt', """
        ret return() = RadialBasisFctSolver::interpolateAt(_rbfSolver, arg0, arg1, arg2, _function, _inputIDs, arg3)
    """)
    spec(ctx, 'clusters', C + 'addWriteDataToCache', """
        call RadialBasisFctSolver::addWriteDataToCache(_rbfSolver, arg0, arg1, arg2, arg3, _function, _inputIDs, arg4)
    """)
    spec(ctx, 'clusters', C + 'computeWeight', """
        ret return() = CompactPolynomialC2::evaluate(_weightingFunction, sqrt(mapping::computeSquaredDifference(_center._coords, arg0._coords, <ALL>))) || ret return() = CompactPolynomialC2::evaluate(_weightingFunction, sqrt(mapping::computeSquaredDifference(arg0._coords, _center._coords, <ALL>)))
    """.replace('<ALL>', ALL))


def weights(ctx):
    """the weights of an output vertex are those of the clusters around it, divided by their sum"""
    V = 'Index::getVerticesInsideBox(_centerMesh._index, arg0, _clusterRadius)'
    f = spec(ctx, 'weights', 'PartitionOfUnityMapping::computeNormalizedWeight', """
        throws | {(size(<V>) == 0)}
        call std::transform(begin(<V>), end(<V>), begin(vector(size(<V>)*)), <*SphericalVertexCluster::computeWeight(idx(_clusters, elem(<V>)), arg0)>) || call std::transform(begin(<V>), end(<V>), begin(vector(size(<V>)*)), *)
        ret return() = pair(<V>, vector(size(<V>)*)~transform(<V>, SphericalVertexCluster::computeWeight(idx(_clusters, elem(<V>)), arg0))*(elem(*) / [*std::accumulate(begin(*), end(*), 0)*])*)
    """.replace('<V>', V))
    n = 0
    for e in f.events:
        if e.kind == 'store' and e.q == 'upd' and e.loops:
            n += 1
            ctx.ob('weights', 'computeNormalizedWeight: equal weights only if the sum of the weights is zero', match('(1 / size(*))', f.n(e.val)) and bool(f.atoms('(0 < std::accumulate(*))')) and f.A.B.implies(f.norm_gate(e.g), f.cond('!{(0 < std::accumulate(*))}')), e.loc, f.n(e.val)[:200])
    ctx.need('weights', n, 1)


def unity(ctx):
    """every cluster takes part, with the weights of its vertices"""
    P = 'PartitionOfUnityMapping::'
    CR = 'impl::createClustering([<C> ? _output : _input], [<C> ? _input : _output], _relativeOverlap, _verticesPerCluster, _projectToInput)'.replace('<C>', CO[1:-1])
    spec(ctx, 'unity', P + 'computeMapping', """
        call impl::createClustering(_output, _input, _relativeOverlap, _verticesPerCluster, _projectToInput) | <CO>
        call impl::createClustering(_input, _output, _relativeOverlap, _verticesPerCluster, _projectToInput) | !<CO>
        some store PartitionOfUnityMapping::_clusterRadius(*) = <CR>.first
        call PartitionOfUnityMapping::_computeCPU(this(), _output, _input, *first, *second) | !{_useBatchedSolver} & <CO>
        call PartitionOfUnityMapping::_computeCPU(this(), _input, _output, *first, *second) | !{_useBatchedSolver} & !<CO>
        store Mapping::_hasComputedMapping(*) = 1
    """.replace('<CO>', CO).replace('<CR>', CR))
    V = 'Vertex(Vertex::getCoords(elem(arg3)), size(new(precice::mesh::Mesh*)._vertices))'
    CL = 'SphericalVertexCluster(<V>, _clusterRadius, _basisFunction, _polynomial, arg0, arg1)'.replace('<V>', V)
    W = 'PartitionOfUnityMapping::computeNormalizedWeight(this(), elem(arg1._vertices), arg1._name)'
    spec(ctx, 'unity', P + '_computeCPU', """
        A) call vector::clear(_clusters)
        B) for arg3: call deque::emplace_back(new(precice::mesh::Mesh*)._vertices*, <V>) | !{SphericalVertexCluster::empty(<CL>)}
        C) for arg3: call vector::emplace_back(_clusters*, <CL>) | !{SphericalVertexCluster::empty(<CL>)}
        W) for arg1._vertices: call <W>
        order A < C < W
        order B < W
        for arg1._vertices >> <W>.first: call SphericalVertexCluster::setNormalizedWeight(idx(_clusters*, elem(<W>.first)), idx(<W>.second, iv), elem(arg1._vertices)._id)
        when store PartitionOfUnityMapping::_centerMesh(*) = null() | !{arg1._isJustInTime}
    """.replace('<CL>', CL).replace('<V>', V).replace('<W>', W))
    spec(ctx, 'unity', P + 'mapConservative', """
        for _clusters: call SphericalVertexCluster::mapConservative(elem(_clusters), arg0, arg1) | !{_useBatchedSolver}
    """)
    spec(ctx, 'unity', P + 'mapConsistent', """
        for _clusters: call SphericalVertexCluster::mapConsistent(elem(_clusters), arg0, arg1) | !{_useBatchedSolver}
        call BatchedRBFSolver::solveConsistent(_batchedSolver, arg0, arg1) | {_useBatchedSolver}
    """)
    W = 'PartitionOfUnityMapping::computeNormalizedWeight(this(), *, _output._name)'
    spec(ctx, 'unity', P + 'mapConsistentAt', """
        Z) call DenseBase::setZero(arg2)
        S) for [0, MapBase::cols(arg2)): call Vertex::setCoords(*, idx($[arg0], tup(col, (iv))))
        A) for [0, MapBase::cols(arg2)) >> <W>.first: call MatrixBase::operator+=(idx($[arg2], tup(col, (iv1))), *SphericalVertexCluster::interpolateAt(idx(_clusters, elem(<W>.first)), *, idx(arg1.polynomialContributions, elem(<W>.first)), idx(arg1.p, elem(<W>.first)), _input)*idx(<W>.second, iv)*)
        order Z < S < A
    """.replace('<W>', W))
    W = 'PartitionOfUnityMapping::computeNormalizedWeight(this(), *, _input._name)'
    spec(ctx, 'unity', P + 'mapConservativeAt', """
        S) for [0, MapBase::cols(arg0)): call Vertex::setCoords(*, idx($[arg0], tup(col, (iv))))
        A) for [0, MapBase::cols(arg0)) >> <W>.first: call SphericalVertexCluster::addWriteDataToCache(idx(_clusters, elem(<W>.first)), *, *idx($[arg1], tup(col, (iv1)))*idx(<W>.second, iv)*, idx(arg2.polynomialContributions, elem(<W>.first)), idx(arg2.p, elem(<W>.first)), _output)
        order S < A
    """.replace('<W>', W))
    spec(ctx, 'unity', P + 'initializeMappingDataCache', """
        call vector::resize(arg0.p, size(_clusters))
        call vector::resize(arg0.polynomialContributions, size(_clusters))
        for _clusters: call SphericalVertexCluster::initializeCacheData(elem(_clusters), idx(arg0.polynomialContributions, iv), idx(arg0.p, iv), MappingDataCache::getDataDimensions(arg0))
    """)
    spec(ctx, 'unity', P + 'updateMappingDataCache', """
        for _clusters: call SphericalVertexCluster::computeCacheData(elem(_clusters), *Map(MapBase::data(arg1), MappingDataCache::getDataDimensions(arg0), (size(arg1) / MappingDataCache::getDataDimensions(arg0))*), idx(arg0.polynomialContributions, iv), idx(arg0.p, iv))
    """)
    # clusters to which nothing was written may be skipped, in both parts
    spec(ctx, 'unity', P + 'completeJustInTimeMapping', """
        for _clusters: only call SphericalVertexCluster::evaluateConservativeCache(elem(_clusters), idx(arg0.polynomialContributions, iv), idx(arg0.p, iv), arg1)
        for _clusters: when call SphericalVertexCluster::evaluateConservativeCache(elem(_clusters), idx(arg0.polynomialContributions, iv), idx(arg0.p, iv), arg1) | {(0 < MatrixBase::squaredNorm(idx(arg0.p, iv)))}
        for _clusters: when call SphericalVertexCluster::evaluateConservativeCache(elem(_clusters), idx(arg0.polynomialContributions, iv), idx(arg0.p, iv), arg1) | {(0 < MatrixBase::squaredNorm(idx(arg0.polynomialContributions, iv)))}
    """)
