"""Exports, watch points and log files: when they are written, and that what is written is the mesh, the data and the state at that time."""
from check import *
from api import *
import stream

MIN = 150
IO = 'precice::io::'
I = 'precice::impl::'
PS = I + 'ParticipantState::'
W = 'elem(_mesh._data)._waveform'
LAST = 'Waveform::last(%s).sample' % W
DIM = 'elem(_mesh._data)._dimensions'
MANY = '[0, %s)' % DIM


def run(ctx):
    timing(ctx)
    configured(ctx)
    files(ctx)
    xml(ctx)
    gradients(ctx)
    connectivity(ctx)
    vtk(ctx)
    csv(ctx)
    watchpoint(ctx)
    watchintegral(ctx)
    tables(ctx)
    logs(ctx)


def terms(t, k):
    todo, got = [t], []
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        if hasattr(x, 'k'):
            if x.k in k:
                got.append(x)
            todo += list(x.a)
    return got


def once(ctx, rule, f, *calls):
    for q in calls:
        n = len(list(f.call(q)))
        ctx.ob(rule, '%s: one call of %s' % (f.name, q), n == 1, '%s:%d' % (f.F.file, f.F.line), 'found %d' % n)


def timing(ctx):
    """the initial state is exported once, then the end of each time window, or each iteration if configured; the time and the number belong to that state"""
    X = 'elem(_exportContexts)'
    ctx.spec('timing', PS + 'exportInitial', '''
        d) for _exportContexts: call Export::doExport(X.exporter, 0, 0) | !{(X.everyNTimeWindows < 1)}
        s) for _exportContexts: call Export::exportSeries(X.exporter) | !{(X.everyNTimeWindows < 1)} & {X.updateSeries}
        order d < s
        for _watchPoints: call WatchPoint::exportPointData(elem(_watchPoints), 0)
        for _watchIntegrals: call WatchIntegral::exportIntegralData(elem(_watchIntegrals), 0)
    '''.replace('X.', X + '.'))
    ctx.spec('timing', PS + 'exportIntermediate', '''
        i) for _exportContexts: when call Export::doExport(X.exporter, arg0.iteration, arg0.time) | {X.everyIteration}
        w) for _exportContexts: when call Export::doExport(X.exporter, arg0.timewindow, arg0.time) | !{X.everyIteration} & {arg0.complete}
        s) for _exportContexts: call Export::exportSeries(X.exporter) | {arg0.final} | !{X.everyIteration} & {arg0.complete} & {X.updateSeries} | {X.everyIteration} & {X.updateSeries}
        order i < s
        order w < s
        for _watchPoints: call WatchPoint::exportPointData(elem(_watchPoints), arg0.time) | {arg0.complete}
        for _watchIntegrals: call WatchIntegral::exportIntegralData(elem(_watchIntegrals), arg0.time) | {arg0.complete}
    '''.replace('X.', X + '.'))
    f = ctx.fn(PS + 'exportIntermediate')
    for e in f.call('Export::doExport'):
        f.n.within(e.loops)
        want = f.cond('{X.everyIteration} | {arg0.complete}'.replace('X.', X + '.'))
        f.n.within([])
        ctx.ob('timing', 'no export between the iterations and the ends of time windows', f.A.B.implies(f.A.B.AND(e.g, f.N), want), e.loc, f.text(e)[:300])
    ctx.spec('timing', PS + 'hasExports', '''
        returns | !{(size(_exportContexts) == 0)} | !{(size(_watchPoints) == 0)} | !{(size(_watchIntegrals) == 0)}
    ''')
    H = '{ParticipantState::hasExports(_accessor)}'
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('exportInitial', 'exportIntermediate', 'hasExports')
    f = ctx.fn(I + 'ParticipantImpl::handleExports', policy=keep)
    ctx.spec('timing', f, '''
        call ParticipantState::exportInitial(_accessor) | {(arg0 == ExportTiming::Initial)} & H
        call ParticipantState::exportIntermediate(_accessor, *) | !{(arg0 == ExportTiming::Initial)} & H
        store IntermediateExport::timewindow(*) = -1*+CouplingScheme::getTimeWindows(_couplingScheme) | !{(arg0 == ExportTiming::Initial)} & H
        store IntermediateExport::iteration(*) = _numberAdvanceCalls | !{(arg0 == ExportTiming::Initial)} & H
        store IntermediateExport::complete(*) = CouplingScheme::isTimeWindowComplete(_couplingScheme) | !{(arg0 == ExportTiming::Initial)} & H
        store IntermediateExport::final(*) = <!CouplingScheme::isCouplingOngoing(_couplingScheme)> | !{(arg0 == ExportTiming::Initial)} & H
        store IntermediateExport::time(*) = CouplingScheme::getTime(_couplingScheme) | !{(arg0 == ExportTiming::Initial)} & H
    '''.replace('H', H).replace('{ParticipantState::' + H + 'asExports', H))
    once(ctx, 'timing', f, 'ParticipantState::exportInitial', 'ParticipantState::exportIntermediate')
    # initialize and advance export after all data of that time has arrived; the mesh of a watch point is complete
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('handleExports', 'setupWatcher', 'handleDataAfterAdvance', 'mapInitialReadData', 'setupCommunication', 'performDataActions', 'advanceCouplingScheme')
    f = ctx.fn(I + 'ParticipantImpl::initialize', policy=keep)
    ctx.spec('timing', f, '''
        s) call ParticipantImpl::setupCommunication(this())
        w) call ParticipantImpl::setupWatcher(this())
        c) call CouplingScheme::initialize(_couplingScheme)
        m) call ParticipantImpl::mapInitialReadData(this())
        e) call ParticipantImpl::handleExports(this(), ExportTiming::Initial)
        order s < w
        order w < e
        order c < m
        order m < e
    ''')
    once(ctx, 'timing', f, 'ParticipantImpl::handleExports')
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('handleExports', 'mapReadData', 'performDataActions', 'mapWrittenData', 'advanceCouplingScheme', 'handleDataBeforeAdvance', 'trimReadMappedData')
    f = ctx.fn(I + 'ParticipantImpl::advance', policy=keep)
    ctx.spec('timing', f, '''
        c) call ParticipantImpl::advanceCouplingScheme(this())
        e) some call ParticipantImpl::handleExports(this(), ExportTiming::Advance)
        order c < e
    ''')
    f = ctx.fn(I + 'ParticipantImpl::handleDataAfterAdvance', policy=keep)
    ctx.spec('timing', f, '''
        m) call ParticipantImpl::mapReadData(this()) | {arg0}
        a) call ParticipantImpl::performDataActions(this(), *) | {arg0}
        e) call ParticipantImpl::handleExports(this(), ExportTiming::Advance) | {arg0}
        order m < e
        order a < e
    ''')
    once(ctx, 'timing', f, 'ParticipantImpl::handleExports')
    ctx.spec('timing', I + 'ParticipantImpl::setupWatcher', '''
        for _accessor._watchPoints: call WatchPoint::initialize(elem(_accessor._watchPoints))
        for _accessor._watchIntegrals: call WatchIntegral::initialize(elem(_accessor._watchIntegrals))
    ''')
    ctx.need('timing', 25, 25)


def configured(ctx):
    """each configured export becomes an exporter of the configured kind for every mesh the participant provides or receives"""
    g = '{(TAG == arg1._namespace)}'
    ctx.spec('configuration', IO + 'ExportConfiguration::xmlTagCallback', '''
        store ExportContext::location(*) = XMLTag::getStringAttributeValue(arg1, ATTR_LOCATION, *) | G
        store ExportContext::everyNTimeWindows(*) = XMLTag::getIntAttributeValue(arg1, ATTR_EVERY_N_TIME_WINDOWS, *) | G
        store ExportContext::everyIteration(*) = XMLTag::getBooleanAttributeValue(arg1, ATTR_EVERY_ITERATION, *) | G
        store ExportContext::updateSeries(*) = XMLTag::getBooleanAttributeValue(arg1, ATTR_UPDATE_SERIES, *) | G
        store ExportContext::type(*) = arg1._name | G
        call *::push_back(_contexts, *) | G
    '''.replace('| G', '| ' + g))
    C = 'ParticipantConfiguration::'
    name = 'precice::config::' if ctx.funcs('precice::config::' + C + 'finishParticipantConfiguration') else 'precice::'
    f = ctx.fn(name + C + 'finishParticipantConfiguration')
    for cls, val in (('ExportVTK', 'VALUE_VTK'), ('ExportVTU', 'VALUE_VTU'), ('ExportVTP', 'VALUE_VTP'), ('ExportCSV', 'VALUE_CSV')):
        made = [e for e in f.events if e.kind == 'new' and e.q.endswith('io::' + cls)]
        ctx.ob('configuration', 'exports of type %s are created' % cls, len(made) >= 1, '%s:%d' % (f.F.file, f.F.line), 'none is created')
        for e in made:
            f.n.within(e.loops)
            try:
                args = [f.n(a) for a in e.args]
                rng = [f.rng(L) for L in e.loops]
                gate = q.expr(f, f.norm_gate(e.g))
            finally:
                f.n.within([])
            want = ('*_name', '*location', '*', '*', '*everyNTimeWindows', '*rank', '*size')
            bad = ['argument %d is %s' % (i, a) for i, (a, w) in enumerate(zip(args, want)) if not q.match(w, a)]
            if len(args) != 7:
                bad.append('%d arguments' % len(args))
            mesh = [r for r in rng if '_meshContexts' in r or 'MeshContexts' in r]
            if not mesh:
                bad.append('not created for the meshes of the participant but for %s' % ' >> '.join(rng))
            if not any('contexts' in r.lower() and r not in mesh for r in rng):
                bad.append('not created for the configured exports')
            others = len(re.findall(r'!\{\(VALUE_V', gate)) == 3 or gate.count('!{') >= 3
            if not (cls == 'ExportCSV' and others) and not re.search(r'(?<!!)\{\(?[^{}]*(%s|"%s")' % (val, cls[-3:].lower()), gate):
                bad.append('created if %s' % gate[:120])
            if len(args) == 7 and 'ExportKind' not in args[3]:
                bad.append('the kind is %s' % args[3])
            elif len(args) == 7 and not q.match('[*everyIteration ? ExportKind::Iterations : ExportKind::TimeWindows]', args[3]):
                bad.append('the kind is %s' % args[3])
            ctx.ob('configuration', 'an export of type %s: participant, location, mesh, kind, frequency, rank and size' % cls, not bad, e.loc, '; '.join(bad)[:400])
    adds = list(f.call('ParticipantState::addExportContext'))
    ctx.ob('configuration', 'the exports are given to the participant', len(adds) >= 1, '%s:%d' % (f.F.file, f.F.line), 'addExportContext is not called')
    ctx.spec('configuration', PS + 'addExportContext', 'call *::push_back(_exportContexts, arg0)')


def files(ctx):
    """names and frequency of the files"""
    ctx.spec('files', IO + 'Export::keepExport', 'returns | {(_kind == ExportKind::Iterations)} | {(0 < _frequency)} & {((arg0 % _frequency) == 0)}')
    ctx.spec('files', IO + 'Export::isParallel', 'returns | {(1 < _size)}')
    ctx.spec('files', IO + 'Export::formatIndex', '''
        ret return() = "init" | {(arg0 == 0)}
        ret return() = *[(_kind == ExportKind::TimeWindows) ? *"dt"* : *"it"*]*std::to_string(arg0)* | !{(arg0 == 0)}
    ''')
    ctx.spec('files', IO + 'Export::recordExport', 'call vector::push_back(_records, init(Record, (arg0, arg1)))')
    f = ctx.fn(IO + 'Export::writeSeriesFile')
    stream.check(ctx, 'files', f, '''
        "{ "file-series-version" : "1.0", "files" : [" | !{(size(_records) == 0)}
        for [0, -1*1+size(_records)): fmt::format(format_string(" {{ "name" : "{}", "time" : {} }},"), idx(_records, iv).filename, idx(_records, iv).time) | !{(size(_records) == 0)}
        fmt::format(format_string(" {{ "name" : "{}", "time" : {} }} ] }}"), vector::back(_records).filename, vector::back(_records).time) | !{(size(_records) == 0)}
    ''')
    for cls, ext in (('VTU', 'u'), ('VTP', 'p')):
        ctx.spec('files', IO + 'Export%s::getPieceExtension' % cls, 'ret return() = *"vt%s"*' % ext)
        ctx.spec('files', IO + 'Export%s::getParallelExtension' % cls, 'ret return() = *"pvt%s"*' % ext)
    for cls, index in (('XML', 0), ('VTK', 0)):
        f = ctx.fn(IO + 'Export%s::exportSeries' % cls)
        n = len(list(f.call('Export::writeSeriesFile')))
        ctx.ob('files', '%s writes one series file' % f.name, n == 1, '%s:%d' % (f.F.file, f.F.line), 'writes %d' % n)
    PAR = '{Export::isParallel(this())}'
    ctx.spec('files', IO + 'ExportXML::exportSeries', '''
        call Export::writeSeriesFile(this(), fmt::format(format_string("{}-{}.{}.series"), _mesh._name, _participantName, [Export::isParallel(this()) ? ExportXML::getParallelExtension(this()) : ExportXML::getPieceExtension(this())])) | !{(0 < _rank)} | !P
    '''.replace('P\n', PAR + '\n'))
    ctx.spec('files', IO + 'ExportVTK::exportSeries', '''
        call Export::writeSeriesFile(this(), fmt::format(format_string("{}-{}.vtk.series"), _mesh._name, _participantName)) | !%s
    ''' % PAR)
    # each file which is written is recorded under its name with its time
    K = '{Export::keepExport(this(), arg0)}'
    XML = 'fmt::format(format_string("{}-{}.{}.{}"), _mesh._name, _participantName, Export::formatIndex(this(), arg0), ExportXML::get%sExtension(this()))'
    f = ctx.fn(IO + 'ExportXML::doExport')
    ctx.spec('files', f, '''
        when call Export::recordExport(this(), %s, arg1) | K & %s & {(_rank == 0)}
        when call Export::recordExport(this(), %s, arg1) | K & !%s
    '''.replace('K &', K + ' &') % (XML % 'Parallel', PAR, XML % 'Piece', PAR))
    n = len(list(f.call('Export::recordExport')))
    ctx.ob('files', '%s records two kinds of files' % f.name, n == 2, '%s:%d' % (f.F.file, f.F.line), 'records %d' % n)
    names(ctx, f, {
        'a parallel file': (XML % 'Parallel', K + ' & {(_rank == 0)} & ' + PAR),
        'a serial file': (XML % 'Piece', K + ' & !' + PAR),
        'a piece': ('fmt::format(format_string("{}-{}.{}_{}.{}"), _mesh._name, _participantName, Export::formatIndex(this(), arg0), _rank, ExportXML::getPieceExtension(this()))', K + ' & !{Mesh::isPartitionEmpty(_mesh, _rank)} & ' + PAR)})
    f = ctx.fn(IO + 'ExportVTK::doExport')
    VTK = 'fmt::format(format_string("{}-{}.{}.vtk"), _mesh._name, _participantName, Export::formatIndex(this(), arg0))'
    ctx.spec('files', f, 'call Export::recordExport(this(), %s, arg1) | %s' % (VTK, K))
    names(ctx, f, {'a file': (VTK, K)})
    f = ctx.fn(IO + 'ExportCSV::doExport')
    names(ctx, f.given(PAR), {'a file of a rank': ('fmt::format(format_string("{}-{}.{}_{}.csv"), _mesh._name, _participantName, *)', K)})
    names(ctx, f.given('!' + PAR), {'a file': ('fmt::format(format_string("{}-{}.{}.csv"), _mesh._name, _participantName, Export::formatIndex(this(), arg0))', K)})


def names(ctx, f, want):
    """the files a function opens: their paths are the location and the name"""
    opened = {}
    for e in f.events:
        if e.kind != 'call' or f.norm_gate(e.g) == 0:
            continue
        for t in e.args[:1]:
            m = re.match(r'ofstream\((.*), ios_base::\w+\)$', f.n(t))
            if m and 'ofstream' not in m.group(1):
                o = opened.setdefault(m.group(1), [0, e])
                o[0] = f.A.B.OR(o[0], e.g)
    have = [(t, f.norm_gate(g), e) for t, (g, e) in opened.items()]
    where = '%s:%d' % (f.F.file, f.F.line)
    for what, (name, cond) in want.items():
        g = f.norm_gate(f.cond(cond))
        got = [h for h in have if h[1] == g]
        ok = [h for h in got if q.match('*(_location, *' + name + '*', h[0]) or q.match('*_location*' + name + '*', h[0])]
        ctx.ob('files', '%s writes %s to the export location under the documented name' % (f.name, what), bool(ok), (got or [(0, 0, None)])[0][2].loc if got else where,
               'opens %s' % '; '.join('%s if %s' % (h[0][:200], q.expr(f, h[1])[:120]) for h in have))
    ctx.ob('files', '%s: number of files (%d)' % (f.name, len(want)), len(have) == len(want), where, 'opens %d files' % len(have))


def sub(cond=''):
    """what a file of one mesh contains"""
    NE = '!{Waveform::empty(%s)}' % W
    D = NE + ' & {(1 < %s)}' % DIM
    S = NE + ' & {(%s == 1)} & !{(1 < %s)}' % (DIM, DIM)
    text = r'''
        "<?xml version="1.0"?>\n<VTKFile type=""
        ExportXML::getVTKFormat(this())
        "" version="0.1" byte_order=""
        [utils::isMachineBigEndian() ? "BigEndian">" : "LittleEndian">"]
        "\n<"
        ExportXML::getVTKFormat(this())
        ">\n<Piece "
        ExportXML::getPieceAttributes(this(), _mesh)
        ">\n<Points>\n<DataArray type="Float64" Name="Position" NumberOfComponents="3" format="ascii">\n"
        for _mesh._vertices >> Vertex::getCoords(elem(_mesh._vertices)): idx($, iv) || elem(Vertex::getCoords(elem(_mesh._vertices)))
        for _mesh._vertices >> Vertex::getCoords(elem(_mesh._vertices)): " "
        for _mesh._vertices: "0 " | {(size(Vertex::getCoords(elem(_mesh._vertices))) == 2)}
        for _mesh._vertices: "\n"
        " </DataArray>\n</Points>\n"
        <ExportXML::exportConnectivity(this(), out(std::operator<<), _mesh)>
        " <PointData Scalars="Rank "
        for _scalarDataNames: elem(_scalarDataNames)
        for _scalarDataNames: " "
        "" Vectors=""
        for _vectorDataNames: elem(_vectorDataNames)
        for _vectorDataNames: " "
        "">\n<DataArray type="UInt32" Name="Rank" NumberOfComponents="1" format="ascii">\n"
        for _mesh._vertices: IntraComm::getRank() || _rank
        for _mesh._vertices: " "
        "\n</DataArray>\n"
        for _mesh._data: " <DataArray type="Float64" Name="" | NE
        for _mesh._data: elem(_mesh._data)._name | NE
        for _mesh._data: "" NumberOfComponents="" | NE
        for _mesh._data: [(DIM == 2) ? 3 : DIM] | NE
        for _mesh._data: "" format="ascii">\n" | NE
        for _mesh._data >> _mesh._vertices >> MANY: idx($[VectorXd(DIM)], iv) || idx(LAST.values, DIM*iv1+iv) | VEC
        for _mesh._data >> _mesh._vertices >> MANY: " " | VEC
        for _mesh._data >> _mesh._vertices: "0.0 " | VEC & {(DIM == 2)}
        for _mesh._data >> _mesh._vertices: idx(LAST.values, iv) | SCAL
        for _mesh._data >> _mesh._vertices: " " | SCAL
        for _mesh._data: "\n</DataArray>\n" | NE
        for _mesh._data: <ExportXML::exportGradient(this(), elem(_mesh._data), DIM, *)> | NE & {elem(_mesh._data)._hasGradient}
        " </PointData>\n</Piece>\n</"
        ExportXML::getVTKFormat(this())
        ">\n</VTKFile>\n"
    '''
    for a, b in (('VEC', D), ('SCAL', S), ('NE', NE), ('LAST', LAST), ('MANY', MANY), ('DIM', DIM)):
        text = re.sub(r'\b%s\b' % a, lambda m: b, text)
    if cond:
        text = '\n'.join(l + (' & ' if ' | ' in l else ' | ') + cond if l.strip() else l for l in text.split('\n'))
    return text


def xml(ctx):
    """VTU and VTP files: the points, cells and data of the mesh; the file of the primary rank names the pieces of all ranks which have a part of the mesh"""
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('exportGradient', 'exportConnectivity', 'writeParallelCells', 'getPieceAttributes', 'isPartitionEmpty')
    f0 = ctx.fn(IO + 'ExportXML::doExport', policy=keep)
    extra = ['ExportXML::writeParallelCells', 'ExportXML::exportConnectivity', 'ExportXML::exportGradient']
    f = f0.given('{Export::keepExport(*)} & !{Export::isParallel(*)}')
    stream.check(ctx, 'vtu and vtp files', f, sub(), extra, 'ExportXML, serial')
    values(ctx, 'vtu and vtp files', f)
    NEM = '!{Mesh::isPartitionEmpty(_mesh, _rank)}'
    f = f0.given('{Export::keepExport(*)} & {Export::isParallel(*)} & !{(_rank == 0)}')
    stream.check(ctx, 'vtu and vtp files', f, sub(NEM), extra, 'ExportXML, piece of a secondary rank')
    f = f0.given('{Export::keepExport(*)} & {Export::isParallel(*)} & {(_rank == 0)}')
    stream.check(ctx, 'vtu and vtp files', f, r'''
        "<?xml version="1.0"?>\n<VTKFile type="P"
        ExportXML::getVTKFormat(this())
        "" version="0.1" byte_order=""
        [utils::isMachineBigEndian() ? "BigEndian">" : "LittleEndian">"]
        "\n<P"
        ExportXML::getVTKFormat(this())
        " GhostLevel="0">\n<PPoints>\n<PDataArray type="Float64" Name="Position" NumberOfComponents="3"/>\n</PPoints>\n"
        <ExportXML::writeParallelCells(this(), *)>
        " <PPointData Scalars="Rank "
        for _scalarDataNames: elem(_scalarDataNames)
        for _scalarDataNames: " "
        "" Vectors=""
        for _vectorDataNames: elem(_vectorDataNames)
        for _vectorDataNames: " "
        "">\n<PDataArray type="Int32" Name="Rank" NumberOfComponents="1"/>\n"
        for _scalarDataNames: " <PDataArray type="Float64" Name=""
        for _scalarDataNames: elem(_scalarDataNames)
        for _scalarDataNames: "" NumberOfComponents="1"/>\n"
        for _vectorDataNames: " <PDataArray type="Float64" Name=""
        for _vectorDataNames: elem(_vectorDataNames)
        for _vectorDataNames: "" NumberOfComponents="3"/>\n"
        " </PPointData>\n"
        for IntraComm::allRanks(): " <Piece Source="" | !{Mesh::isPartitionEmpty(_mesh, elem(IntraComm::allRanks()))}
        for IntraComm::allRanks(): fmt::format(format_string("{}-{}.{}_{}.{}"), _mesh._name, _participantName, Export::formatIndex(this(), arg0), elem(IntraComm::allRanks()), ExportXML::getPieceExtension(this())) | !{Mesh::isPartitionEmpty(_mesh, elem(IntraComm::allRanks()))}
        for IntraComm::allRanks(): ""/>\n" | !{Mesh::isPartitionEmpty(_mesh, elem(IntraComm::allRanks()))}
        " </P"
        ExportXML::getVTKFormat(this())
        ">\n</VTKFile>\n"
    ''' + sub(NEM), extra, 'ExportXML, primary rank')
    # names of the data arrays
    NE = '!{Waveform::empty(%s)}' % W
    N = 'elem(_mesh._data)._name'
    f = ctx.fn(IO + 'ExportXML::processDataNamesAndDimensions')
    f = ctx.fn(IO + 'ExportXML::doExport', policy=keep).given('{Export::keepExport(*)}')
    one, hg = '{(%s == 1)}' % DIM, '{elem(_mesh._data)._hasGradient}'
    three = '{(_mesh._dimensions == 3)}'
    ctx.spec('vtu and vtp files', f, '''
        a) when call vector::clear(_vectorDataNames)
        b) when call vector::clear(_scalarDataNames)
        s) for _mesh._data: when call vector::push_back(*, N) | NE & ONE
        for _mesh._data: when call vector::push_back(*, cat(N, "_gradient")) | NE & ONE & HG
        for _mesh._data: when call vector::push_back(*, N) | NE & !ONE
        x) for _mesh._data: when call vector::push_back(*, cat(N, "_dx")) | NE & !ONE & HG
        y) for _mesh._data: when call vector::push_back(*, cat(N, "_dy")) | NE & !ONE & HG
        z) for _mesh._data: when call vector::push_back(*, cat(N, "_dz")) | NE & !ONE & HG & THREE
        order a < s
        order b < s
        order x < y
        order y < z
    '''.replace('THREE', three).replace('ONE', one).replace('HG', hg).replace('NE ', NE + ' ').replace('N)', N + ')').replace('(N,', '(' + N + ','))
    for e in f.call('vector::push_back'):
        f.n.within(e.loops)
        t, v = f.n(e.args[0]), f.n(e.args[1])
        g = f.norm_gate(e.g)
        f.n.within([])
        if not (t.startswith('_scalarDataNames') or t.startswith('_vectorDataNames')):
            continue
        scalar = f.A.B.implies(g, f.norm_gate(f.cond(one))) if v == N else False
        ctx.ob('vtu and vtp files', '%s is listed as %s' % (v, 'scalar' if scalar else 'vector'), t.startswith('_scalarDataNames') == scalar, e.loc, 'it is appended to %s' % t[:40])
    for cls, fmt in (('ExportVTU', 'UnstructuredGrid'), ('ExportVTP', 'PolyData')):
        ctx.spec('vtu and vtp files', IO + cls + '::getVTKFormat', 'ret return() = *"%s"*' % fmt)
    PE = 'precice::mesh::Mesh::isPartitionEmpty'
    ctx.need('vtu and vtp files', 150, 150)


def values(ctx, rule, f, count='iv1'):
    """a vector which is collected in a temporary first holds the components of that vertex"""
    ev = [e for e in f.events if e.kind == 'store' and f.norm_gate(e.g) != 0 and e.q == 'lv']
    temps = [o for o in stream.tokens(f) if o[3].startswith('idx($[VectorXd(%s' % DIM)]
    if not temps:
        return
    ctx.spec(rule, f, ' || '.join('for _mesh._data >> %s >> %s: when store lv(idx($[VectorXd(%s)], iv)) = idx(%s.values, %s) | !{Waveform::empty(%s)} & {(1 < %s)}' % (r, MANY, DIM, LAST, i, W, DIM)
                                  for r in ('_mesh._vertices', '[0, Mesh::nVertices(_mesh))') for i in ('%s*iv1+iv' % DIM, '%s*elem(_mesh._vertices)._id+iv' % DIM)))


def gradients(ctx):
    """gradient data: one array per direction, three components for every vertex"""
    f0 = ctx.fn(IO + 'ExportXML::exportGradient')
    G = 'Waveform::last(arg0._waveform).sample.gradients'
    for cond, r, n in (('{(arg0._dimensions == 1)}', '*init(*"_gradient"))', 'scalar data'),
                       ('!{(arg0._dimensions == 1)} & {(arg1 == 2)} & !{(arg1 == 3)}', '*init(*"_dx", "_dy"))', '2D vector data'),
                       ('!{(arg0._dimensions == 1)} & !{(arg1 == 2)} & {(arg1 == 3)}', '*init(*"_dx", "_dy", "_dz"))', '3D vector data')):
        f = f0.given(cond)
        toks = stream.tokens(f)
        where = '%s:%d' % (f.F.file, f.F.line)
        rs = {o[0][0] for o in toks if o[0]}
        ctx.ob('gradients', '%s: one array per direction' % n, len(rs) == 1 and q.match(r, min(rs)), where, 'arrays for %s' % '; '.join(sorted(rs))[:200])
        body = [(len(o[0]), 't' if o[2] is not None else 'v', (o[2] if o[2] is not None else o[3]).strip(' ')) for o in toks]
        want = [(1, 't', '<DataArray type="Float64" Name="'), (1, 'v', 'arg0._name'), (1, 'v', '*'), (1, 't', '" NumberOfComponents="3" format="ascii">\n'),
                (3, 'v', 'PlainObjectBase::coeff(%s, iv, *)' % G), (3, 't', ''), (2, 't', '0.0'), (1, 't', '\n</DataArray>\n')]
        ok = len(body) == len(want) and all(a[0] == b[0] and a[1] == b[1] and (a[2] == b[2] or a[1] == 'v' and q.match(b[2], a[2])) for a, b in zip(body, want))
        ctx.ob('gradients', '%s: name, components and padding of an array' % n, ok, where, 'writes %s' % str(body)[:500])
        v = [o for o in toks if o[3].startswith('PlainObjectBase::coeff(')]
        for o in v:
            # the column of a vertex is its number times the stride plus the number of the direction
            col = q.split_args(o[3])[2] if hasattr(q, 'split_args') else o[3].rsplit(', ', 1)[1][:-1]
            ctx.ob('gradients', '%s: the column of direction k of vertex i is dimension*i+k' % n, bool(re.search(r'arg1\*iv\d', col)) and bool(re.search(r'(?<!\*)iv\d?(?![\d])', col)), o[4], 'the column is ' + col)
            ctx.ob('gradients', '%s: the components of a gradient' % n, q.match('[0, PlainObjectBase::rows(%s))' % G, o[0][2]), o[4], 'rows ' + o[0][2])


def connectivity(ctx):
    """cells: the vertices of each cell, the offsets of their ends and their types in the same order"""
    extra = ['ExportXML::writeLine', 'ExportXML::writeTriangle', 'ExportXML::writeTetrahedron']
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('writeLine', 'writeTriangle', 'writeTetrahedron')
    f = ctx.fn(IO + 'ExportVTU::exportConnectivity', policy=keep)
    toks = stream.tokens(f, extra)
    stream.check(ctx, 'cells', f, r'''
        " <Cells>\n<DataArray type="Int32" Name="connectivity" NumberOfComponents="1" format="ascii">\n"
        for arg1._triangles: <ExportXML::writeTriangle(elem(arg1._triangles), arg0)>
        for arg1._edges: <ExportXML::writeLine(elem(arg1._edges), arg0)>
        for arg1._tetrahedra: <ExportXML::writeTetrahedron(elem(arg1._tetrahedra), arg0)>
        "\n</DataArray>\n<DataArray type="Int32" Name="offsets" NumberOfComponents="1" format="ascii">\n"
        for [1, 1+size(arg1._triangles)): 3*iv
        for [1, 1+size(arg1._triangles)): " "
        for [1, 1+size(arg1._edges)): 2*iv+3*size(arg1._triangles)
        for [1, 1+size(arg1._edges)): " "
        for [1, 1+size(arg1._tetrahedra)): 2*size(arg1._edges)+3*size(arg1._triangles)+4*iv
        for [1, 1+size(arg1._tetrahedra)): " "
        "\n</DataArray>\n<DataArray type="UInt8" Name="types" NumberOfComponents="1" format="ascii">\n"
        for [1, 1+size(arg1._triangles)): "5 "
        for [1, 1+size(arg1._edges)): "3 "
        for [1, 1+size(arg1._tetrahedra)): "10 "
        "\n</DataArray>\n</Cells>\n"
    ''', extra)
    f = ctx.fn(IO + 'ExportVTP::exportConnectivity', policy=keep)
    stream.check(ctx, 'cells', f, r'''
        " <Lines>\n<DataArray type="Int32" Name="connectivity" NumberOfComponents="1" format="ascii">\n"
        for arg1._edges: <ExportXML::writeLine(elem(arg1._edges), arg0)>
        "\n</DataArray>\n<DataArray type="Int32" Name="offsets" NumberOfComponents="1" format="ascii">\n"
        for [1, 1+size(arg1._edges)): 2*iv
        for [1, 1+size(arg1._edges)): " "
        "\n</DataArray>\n</Lines>\n<Polys>\n<DataArray type="Int32" Name="connectivity" NumberOfComponents="1" format="ascii">\n"
        for arg1._triangles: <ExportXML::writeTriangle(elem(arg1._triangles), arg0)>
        "\n</DataArray>\n<DataArray type="Int32" Name="offsets" NumberOfComponents="1" format="ascii">\n"
        for [1, 1+size(arg1._triangles)): 3*iv
        for [1, 1+size(arg1._triangles)): " "
        "\n</DataArray>\n</Polys>\n"
    ''', extra)
    for fn, cls, n in (('writeLine', 'Edge', 2), ('writeTriangle', 'Triangle', 3), ('writeTetrahedron', 'Tetrahedron', 4)):
        stream.check(ctx, 'cells', ctx.fn(IO + 'ExportXML::' + fn), '\n'.join('%s::vertex(arg0, %d)._id\n" "' % (cls, i) for i in range(n)))
    stream.check(ctx, 'cells', ctx.fn(IO + 'ExportVTU::getPieceAttributes'), '''
        "NumberOfPoints=""
        Mesh::nVertices(arg0) || size(arg0._vertices)
        "" NumberOfCells=""
        size(arg0._edges)+size(arg0._tetrahedra)+size(arg0._triangles)
        "" "
    ''')
    stream.check(ctx, 'cells', ctx.fn(IO + 'ExportVTP::getPieceAttributes'), '''
        "NumberOfPoints=""
        Mesh::nVertices(arg0) || size(arg0._vertices)
        "" NumberOfLines=""
        size(arg0._edges)
        "" NumberOfPolys=""
        size(arg0._triangles)
        """
    ''')
    stream.check(ctx, 'cells', ctx.fn(IO + 'ExportVTU::writeParallelCells'), r'''
        " <PCells>\n<PDataArray type="Int32" Name="connectivity" NumberOfComponents="1"/>\n<PDataArray type="Int32" Name="offsets" NumberOfComponents="1"/>\n<PDataArray type="UInt8" Name="types" NumberOfComponents="1"/>\n</PCells>\n"
    ''')
    stream.check(ctx, 'cells', ctx.fn(IO + 'ExportVTP::writeParallelCells'), r'''
        " <PLines>\n<PDataArray type="Int32" Name="connectivity" NumberOfComponents="1"/>\n<PDataArray type="Int32" Name="offsets" NumberOfComponents="1"/>\n</PLines>\n<PPolys>\n<PDataArray type="Int32" Name="connectivity" NumberOfComponents="1"/>\n<PDataArray type="Int32" Name="offsets" NumberOfComponents="1"/>\n</PPolys>\n"
    ''')


def vtk(ctx):
    """legacy VTK files"""
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('writeLine', 'writeTriangle', 'writeTetrahedron')
    f0 = ctx.fn(IO + 'ExportVTK::doExport', policy=keep)
    NE = '!{Waveform::empty(%s)}' % W
    VEC, SCAL = NE + ' & {(1 < %s)}' % DIM, NE + ' & {(%s == 1)} & !{(1 < %s)}' % (DIM, DIM)
    extra = ['ExportVTK::writeLine', 'ExportVTK::writeTriangle', 'ExportVTK::writeTetrahedron', 'fill_n*']
    for dim, cells in ((2, r'''
        "\nCELLS "
        size(_mesh._edges)
        " "
        3*size(_mesh._edges)
        "\n"
        for _mesh._edges: <ExportVTK::writeLine(*)>
        "\nCELL_TYPES "
        size(_mesh._edges)
        "\n"
        for _mesh._edges: "3\n"
    '''), (3, r'''
        "\nCELLS "
        size(_mesh._edges)+size(_mesh._tetrahedra)+size(_mesh._triangles)
        " "
        3*size(_mesh._edges)+4*size(_mesh._triangles)+5*size(_mesh._tetrahedra)
        "\n"
        for _mesh._tetrahedra: <ExportVTK::writeTetrahedron(*)>
        for _mesh._triangles: <ExportVTK::writeTriangle(*)>
        for _mesh._edges: <ExportVTK::writeLine(*)>
        "\nCELL_TYPES "
        size(_mesh._edges)+size(_mesh._tetrahedra)+size(_mesh._triangles)
        "\n"
        for _mesh._tetrahedra: "10\n"
        for _mesh._triangles: "5\n"
        for _mesh._edges: "3\n"
    ''')):
        f = f0.given('{Export::keepExport(*)} & {(_mesh._dimensions == %d)} & !{(_mesh._dimensions == %d)} & !{elem(_mesh._data)._hasGradient}' % (dim, 5 - dim))
        have = [''.join(x) for x in [stream.show(f, extra)]] if False else None
        two = '{(size(Vertex::getCoords(elem(_mesh._vertices))) == 2)}'
        text = r'''
            for _mesh._vertices: idx($, 0) | TWO
            for _mesh._vertices: " " | TWO
            for _mesh._vertices: idx($, 1) | TWO
            for _mesh._vertices: " 0\n" | TWO
            for _mesh._vertices: idx($, 0) | !TWO
            for _mesh._vertices: " " | !TWO
            for _mesh._vertices: idx($, 1) | !TWO
            for _mesh._vertices: " " | !TWO
            for _mesh._vertices: idx($, 2) | !TWO
            for _mesh._vertices: "\n" | !TWO
        '''.replace('TWO', two)
        tail = r'''
            "\nPOINT_DATA "
            Mesh::nVertices(_mesh) || size(_mesh._vertices)
            "\nSCALARS Rank unsigned_int\nLOOKUP_TABLE default\n"
            for _mesh._data: "VECTORS " | VEC
            for _mesh._data: elem(_mesh._data)._name | VEC
            for _mesh._data: " double\n" | VEC
            for _mesh._data >> _mesh._vertices >> MANY: idx($[VectorXd(DIM)], iv) || idx(LAST.values, DIM*elem(_mesh._vertices)._id+iv) || idx(LAST.values, DIM*iv1+iv) | VEC
            for _mesh._data >> _mesh._vertices >> MANY: " " | VEC
            for _mesh._data >> _mesh._vertices: "0" | VEC & {(out(loopvar) < 3)} || {(DIM < 3)}
            for _mesh._data >> _mesh._vertices: "\n" | VEC
            for _mesh._data: "\n" | VEC
            for _mesh._data: "SCALARS " | SCAL
            for _mesh._data: elem(_mesh._data)._name | SCAL
            for _mesh._data: " double\nLOOKUP_TABLE default\n" | SCAL
            for _mesh._data >> _mesh._vertices: idx(LAST.values, elem(_mesh._vertices)._id) || idx(LAST.values, iv) | SCAL
            for _mesh._data >> _mesh._vertices: "\n" | SCAL
            for _mesh._data: "\n" | SCAL
        '''.replace(' || {(DIM < 3)}', '')
        for a, b in (('VEC', VEC), ('SCAL', SCAL), ('LAST', LAST), ('MANY', MANY), ('DIM', DIM)):
            tail = re.sub(r'\b%s\b' % a, lambda m: b, tail)
        stream.check(ctx, 'vtk files', f, r'''
            "# vtk DataFile Version 2.0\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS "
            Mesh::nVertices(_mesh) || size(_mesh._vertices)
            " double\n"
        ''' + text + cells + tail, extra, 'ExportVTK, %dD' % dim)
        if dim == 3:
            values(ctx, 'vtk files', f)
            for cls, seq, n, fn in (('Edge', 'edges', 2, 'writeLine'), ('Triangle', 'triangles', 3, 'writeTriangle'), ('Tetrahedron', 'tetrahedra', 4, 'writeTetrahedron')):
                for e in f.call('ExportVTK::' + fn):
                    f.n.within(e.loops)
                    t = f.n(e.args[0])
                    f.n.within([])
                    got = dict(re.findall(r'store\(idx\(\$, (\d)\), %s::vertex\(elem\(_mesh\._%s\), (\d)\)\._id\)' % (cls, seq), t))
                    ctx.ob('vtk files', 'the %d vertices of a cell of type %s' % (n, cls), got == {str(i): str(i) for i in range(n)} or '~store' not in t and 'loop' in t, e.loc, 'writes %s' % t[:300])
    for cls, fn, n in (('Edge', 'writeLine', 2), ('Triangle', 'writeTriangle', 3), ('Tetrahedron', 'writeTetrahedron', 4)):
        stream.check(ctx, 'vtk files', ctx.fn(IO + 'ExportVTK::' + fn), r'''
            "N "
            for [0, N): idx(arg0, iv)
            for [0, N): " "
            "\n"
        '''.replace('N', str(n)))


def csv(ctx):
    """CSV files: a header and one line per vertex with a value for each column of the header"""
    f = ctx.fn(IO + 'ExportCSV::doExport').given('{Export::keepExport(*)}')
    NE = '!{Waveform::empty(%s)}' % W
    two, three = '{(%s == 2)}' % DIM, '{(%s == 3)}' % DIM
    COLS = '*vector()*_mesh._data*'
    stream.check(ctx, 'csv files', f, r'''
        "PosX;PosY"
        ";PosZ" | {(_mesh._dimensions == 3)}
        ";Rank"
        for _mesh._data: ";" | NE
        for _mesh._data: elem(_mesh._data)._name | NE
        for _mesh._data: "X;" | NE & TWO
        for _mesh._data: elem(_mesh._data)._name | NE & TWO
        for _mesh._data: "Y" | NE & TWO
        for _mesh._data: "X;" | NE & !TWO & THREE
        for _mesh._data: elem(_mesh._data)._name | NE & !TWO & THREE
        for _mesh._data: "Y;" | NE & !TWO & THREE
        for _mesh._data: elem(_mesh._data)._name | NE & !TWO & THREE
        for _mesh._data: "Z" | NE & !TWO & THREE
        "\n"
        for _mesh._vertices: Vertex::coord(elem(_mesh._vertices), 0)
        for _mesh._vertices: ";"
        for _mesh._vertices: Vertex::coord(elem(_mesh._vertices), 1)
        for _mesh._vertices: ";" | {(_mesh._dimensions == 3)}
        for _mesh._vertices: Vertex::coord(elem(_mesh._vertices), 2) | {(_mesh._dimensions == 3)}
        for _mesh._vertices: cat(";", std::to_string(_rank))
        for _mesh._vertices >> COLS: ";"
        for _mesh._vertices >> COLS: elem(COLS).ptr
        for _mesh._vertices: "\n"
    '''.replace('COLS', COLS).replace('NE ', NE + ' ').replace('NE\n', NE + '\n').replace('THREE', three).replace('TWO', two))
    ctx.spec('csv files', f, '''
        p) for _mesh._data >> MANY: call vector::push_back(phi, init(*, (std::next(PlainObjectBase::data(LAST.values), iv), DIM))) | NE
        n) for * >> C: call std::advance(elem(C).ptr, elem(C).stride)
        w) for * >> C: call StridedAccess::operator*(elem(C))
        order w < n
    '''.replace('LAST', LAST).replace('MANY', MANY).replace('NE\n', NE + '\n').replace('DIM', DIM).replace(' C:', ' *:').replace(' C ', ' * ').replace('elem(C)', 'elem(*)'))


def watchpoint(ctx):
    """a watch point shows the interpolated values at the projection of the point; of all ranks, the closest one writes them"""
    N = '{(0 < Mesh::nVertices(_mesh))}'
    R = 'elem(IntraComm::allSecondaryRanks())'
    f = ctx.fn(I + 'WatchPoint::initialize')
    P = 'Index::findCellOrProjection(_mesh._index, _point, *).polation'
    ctx.spec('watch points', f, '''
        store WatchPoint::_shortestDistance(*) = P._distance | N
        store WatchPoint::_shortestDistance(*) = numeric_limits::max() | !N
        store WatchPoint::_interpolation(*) = new(precice::mapping::Polation, (P), *) | N
        store WatchPoint::_interpolation(*) = null() | !N
        call Communication::send(IntraComm::getCommunication(), P._distance, 0) | N & {IntraComm::isSecondary()}
        call Communication::send(IntraComm::getCommunication(), numeric_limits::max(), 0) | !N & {IntraComm::isSecondary()}
        call Communication::receive(IntraComm::getCommunication(), _isClosest, 0) | {IntraComm::isSecondary()}
        r) for IntraComm::allSecondaryRanks(): call Communication::receive(IntraComm::getCommunication(), *, R) | {IntraComm::isPrimary()}
        store WatchPoint::_isClosest(*) = <(lout(0, [(out(Communication::receive) < phi) ? R : phi]) == 0)> | {IntraComm::isPrimary()}
        s) for IntraComm::allSecondaryRanks(): call Communication::send(IntraComm::getCommunication(), <(R == lout(0, [(out(Communication::receive) < phi) ? R : phi]))>, R) | {IntraComm::isPrimary()}
        order r < s
    '''.replace('R)', R + ')').replace('R ', R + ' ').replace('(P)', '(' + P + ')').replace('P._', P + '._').replace('| N', '| ' + N).replace('!N', '!' + N).replace(',%s ' % R, ', %s ' % R))
    # the smallest distance so far is updated together with its rank, and starts with the one of the primary rank
    n = 0
    for e in f.call('Communication::receive'):
        if not e.loops:
            continue
        L = e.loops[-1]
        f.n.within(e.loops)
        state = {str(u[1]) if isinstance(u, tuple) else str(u): (f.n(L.init[u]), L.fin.get(u)) for u in L.init}
        phis = lambda t: {x.a[2] for y in ((t,) + (tuple(f.A.B.support(t.a[1])) if t.k == 'ite' else ())) for x in terms(y, ('phi',))}
        dist = [k for k, (i, t) in state.items() if t is not None and f.n(t) == '[(out(Communication::receive) < phi) ? out(Communication::receive) : phi]' and phis(t) == {k}]
        n += 1
        ctx.ob('watch points', 'the smallest distance so far starts with the one of the primary rank', len(dist) == 1 and (state[dist[0]][0] == '_shortestDistance' or '_distance' in state[dist[0]][0]), e.loc, str({k: v[0] for k, v in state.items()}))
        rank = [t for k, (i, t) in state.items() if k not in dist and t is not None and f.n(t) == '[(out(Communication::receive) < phi) ? elem(IntraComm::allSecondaryRanks()) : phi]' and phis(t) == {k, *dist}]
        f.n.within([])
        ctx.ob('watch points', 'the rank of the smallest distance is compared with the smallest distance', len(rank) == 1, e.loc, 'no such value')
    ctx.need('watch points', n, 1)
    f = ctx.fn(I + 'WatchPoint::WatchPoint')
    ctx.spec('watch points', f, '''
        store WatchPoint::_isClosest(*) = 1
        store WatchPoint::_point(*) = arg0
        store WatchPoint::_mesh(*) = arg1
        store WatchPoint::_txtWriter(*) = TXTTableWriter(arg2)
        t) when call TXTTableWriter::addData(*, "Time", TXTTableWriter::DOUBLE)
        c) when call TXTTableWriter::addData(*, "Coordinate", TXTTableWriter::VECTOR2D) | {(arg1._dimensions == 2)}
        d) when call TXTTableWriter::addData(*, "Coordinate", TXTTableWriter::VECTOR3D) | !{(arg1._dimensions == 2)}
        p) for arg1._data: call vector::push_back(_dataToExport, elem(arg1._data))
        x) for arg1._data: when call TXTTableWriter::addData(*, *._name, TXTTableWriter::VECTOR2D) | {(1 < *._dimensions)} & {(arg1._dimensions == 2)}
        y) for arg1._data: when call TXTTableWriter::addData(*, *._name, TXTTableWriter::VECTOR3D) | !{(arg1._dimensions == 2)} & {(1 < *._dimensions)}
        z) for arg1._data: when call TXTTableWriter::addData(*, *._name, TXTTableWriter::DOUBLE) | !{(1 < *._dimensions)}
        order t < c
        order t < d
        order c < x
        order d < y
        order c < z
        order d < z
    ''')
    f0 = ctx.fn(I + 'WatchPoint::exportPointData')
    f = f0.given('{_interpolation} & {_isClosest}')
    E = 'elem(_interpolation._weightedElements)'
    D = 'elem(_dataToExport)'
    S = 'Waveform::sample(%s._waveform, arg0)' % D
    COORD = 'lout(VectorXd(DenseBase::*(_mesh._dimensions*)), Vertex::getCoords(Mesh::vertex(_mesh, %s.vertexID))*%s.weight+phi)' % (E, E)
    SCALAR = 'lout(0, SampleResult::operator()(%s, %s.vertexID)*%s.weight+phi)' % (S, E, E)
    VAL = 'SampleResult::operator()(%s, _mesh._dimensions*%s.vertexID+iv)' % (S, E)
    ctx.spec('watch points', f, '''
        t) call TXTTableWriter::writeData(_txtWriter, "Time", arg0)
        c) call TXTTableWriter::writeData(_txtWriter, "Coordinate", Vector2d(COORD)) | {(* == 2)}
        d) call TXTTableWriter::writeData(_txtWriter, "Coordinate", Vector3d(COORD)) | !{(* == 2)}
        s) for _dataToExport: call TXTTableWriter::writeData(_txtWriter, D._name, SCALAR) | !{(1 < D._dimensions)}
        v) for _dataToExport: call TXTTableWriter::writeData(_txtWriter, D._name, Vector2d(lout(*, phi))) | {(1 < D._dimensions)} & {(* == 2)}
        w) for _dataToExport: call TXTTableWriter::writeData(_txtWriter, D._name, Vector3d(lout(*, phi))) | {(1 < D._dimensions)} & !{(* == 2)}
        for _dataToExport >> _interpolation._weightedElements >> [0, _mesh._dimensions): when store lv(idx(*, iv)) = VAL | {(1 < D._dimensions)}
        m) for _dataToExport >> _interpolation._weightedElements: when call *::operator*=(*, E.weight) | {(1 < D._dimensions)}
        a) for _dataToExport >> _interpolation._weightedElements: when call *::operator+=(phi, *) | {(1 < D._dimensions)}
        order t < c
        order t < d
        order c < s
        order d < w
        order m < a
    '''.replace('COORD', COORD).replace('SCALAR', SCALAR).replace('VAL', VAL).replace('E.w', E + '.w').replace('D._', D + '._'))
    f = f0
    for e in f.call('TXTTableWriter::writeData'):
        g = f.norm_gate(e.g)
        ctx.ob('watch points', 'only the closest rank with a projection writes (%s)' % f.n(e.args[1])[:40], f.A.B.implies(g, f.norm_gate(f.cond('{_interpolation} & {_isClosest}'))), e.loc, 'writes if %s' % q.expr(f, g)[:200])


def watchintegral(ctx):
    """a watch integral shows the sum or the surface integral over the whole mesh, written by the primary rank; header and rows have the same columns"""
    NS = '!{IntraComm::isSecondary()}'
    ctx.spec('watch integrals', I + 'WatchIntegral::WatchIntegral', '''
        store WatchIntegral::_mesh(*) = arg0
        store WatchIntegral::_txtWriter(*) = TXTTableWriter(arg1)
        store WatchIntegral::_isScalingOn(*) = arg2
        store WatchIntegral::_writesSurfaceArea(*) = 0
        store WatchIntegral::_isInitialized(*) = 0
        t) when call TXTTableWriter::addData(*, "Time", TXTTableWriter::DOUBLE) | NS
        for arg0._data: call vector::push_back(_dataToExport, elem(arg0._data))
        a) for arg0._data: when call TXTTableWriter::addData(*, *._name, TXTTableWriter::VECTOR2D) | NS & {(1 < *._dimensions)} & {(*._dimensions == 2)}
        b) for arg0._data: when call TXTTableWriter::addData(*, *._name, TXTTableWriter::VECTOR3D) | !{(*._dimensions == 2)} & NS & {(1 < *._dimensions)}
        c) for arg0._data: when call TXTTableWriter::addData(*, *._name, TXTTableWriter::DOUBLE) | !{(1 < *._dimensions)} & NS
        order t < a
        order t < b
        order t < c
    '''.replace('NS', NS))
    f = ctx.fn(I + 'WatchIntegral::initialize')
    PAR = '{(1 < IntraComm::getSize())}'
    CONN = '(!%s & !{(size(_mesh._edges) == 0)} | {(0 < out(IntraComm::allreduceSum))} & %s)' % (PAR, PAR)
    ctx.spec('watch integrals', f, '''
        call IntraComm::allreduceSum(size(_mesh._edges), *) | PAR
        store WatchIntegral::_hasConnectivity(*) = <*size(_mesh._edges)*out(IntraComm::allreduceSum)*>
        store WatchIntegral::_isInitialized(*) = 1 | !{_isInitialized}
        store WatchIntegral::_writesSurfaceArea(*) = * | !{_isInitialized}
        call TXTTableWriter::addData(_txtWriter, "SurfaceArea", TXTTableWriter::DOUBLE) | NS & !{_isInitialized} & CONN
    '''.replace('PAR', PAR).replace('NS', NS).replace('CONN', CONN))
    same = [f.n(e.val) for e in f.events if e.kind == 'store' and ('_hasConnectivity' in e.q or '_writesSurfaceArea' in e.q)]
    ctx.ob('watch integrals', 'the column of the surface area belongs to the connectivity of the complete mesh', len(set(same)) == 1 and len(same) >= 2, '%s:%d' % (f.F.file, f.F.line), 'the flags are %s' % '; '.join(sorted(set(same)))[:300])
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('calculateIntegral', 'calculateSurfaceArea')
    D = 'elem(_dataToExport)'
    f = ctx.fn(I + 'WatchIntegral::exportIntegralData', policy=keep)
    V = '[%s ? VectorXd(DenseBase::Zero(%s._dimensions)) : *WatchIntegral::calculateIntegral(this(), arg0, %s)*]' % ('(1 < IntraComm::getSize())', D, D)
    ctx.spec('watch integrals', f, '''
        t) call TXTTableWriter::writeData(_txtWriter, "Time", arg0) | NS
        v) for _dataToExport: call WatchIntegral::calculateIntegral(this(), arg0, D)
        r) for _dataToExport: call IntraComm::reduceSum(*WatchIntegral::calculateIntegral(this(), arg0, D)*, *) | PAR
        a) for _dataToExport: when call TXTTableWriter::writeData(_txtWriter, D._name, *) | NS & {(D._dimensions == 1)}
        b) for _dataToExport: when call TXTTableWriter::writeData(_txtWriter, D._name, Vector2d(*)) | NS & !{(D._dimensions == 1)} & {(D._dimensions == 2)}
        c) for _dataToExport: when call TXTTableWriter::writeData(_txtWriter, D._name, Vector3d(*)) | NS & !{(D._dimensions == 1)} & !{(D._dimensions == 2)}
        s) call WatchIntegral::calculateSurfaceArea(this()) | {_writesSurfaceArea}
        q) call IntraComm::reduceSum(*WatchIntegral::calculateSurfaceArea(this())*, *) | PAR & {_writesSurfaceArea}
        w) some call TXTTableWriter::writeData(_txtWriter, "SurfaceArea", *) | NS & {_writesSurfaceArea}
        order t < a
        order t < b
        order t < c
        order v < r
        order s < q
        order a < w
        order b < w
        order c < w
    '''.replace('NS', NS).replace('PAR', PAR).replace('D)', D + ')').replace('D._', D + '._'))
    S = 'Waveform::sample(arg1._waveform, arg0)'
    ctx.spec('watch integrals', I + 'WatchIntegral::calculateIntegral', '''
        for _mesh._vertices >> [0, arg1._dimensions): store lv(idx(*, iv)) = SampleResult::operator()(S, arg1._dimensions*elem(_mesh._vertices)._id+iv)+idx(*, iv) | !{_hasConnectivity} | !{_isScalingOn}
        ret return() = VectorXd(DenseBase::Zero(arg1._dimensions)) | {(size(_mesh._edges) == 0)} & {_hasConnectivity} & {_isScalingOn}
        ret return() = mesh::integrateSurface(_mesh, VectorXd(S._view)) | !{(size(_mesh._edges) == 0)} & {_hasConnectivity} & {_isScalingOn}
    '''.replace('S,', S + ',').replace('S._', S + '._'))
    ctx.spec('watch integrals', I + 'WatchIntegral::calculateSurfaceArea', '''
        ret return() = lout(0, Triangle::getArea(elem(_mesh._triangles))+phi) | {(_mesh._dimensions == 3)}
        ret return() = lout(0, Edge::getLength(elem(_mesh._edges))+phi) | !{(_mesh._dimensions == 3)}
    ''')


def tables(ctx):
    """tables: a header with the names of the columns, then one line per row"""
    T = IO + 'TXTTableWriter::'
    two = '{(arg1 == TXTTableWriter::VECTOR2D)}'
    one = '({(arg1 == TXTTableWriter::INT)} | {(arg1 == TXTTableWriter::DOUBLE)})'
    vec = '!{(arg1 == TXTTableWriter::DOUBLE)} & !{(arg1 == TXTTableWriter::INT)}'
    ctx.spec('tables', T + 'addData', '''
        call vector::push_back(_data, init(Data, (arg0, arg1)))
        store TXTTableWriter::_writeIterator(*) = *end(_data*
    ''')
    stream.check(ctx, 'tables', ctx.fn(T + 'addData'), r'''
        [*(size(_data*) == 0)* ? "" : "  "] | ONE
        arg0 | ONE
        [*(size(_data*) == 0)* ? "" : "  "] | VEC
        arg0 | VEC
        "0" | VEC
        for [1, 2): " " | VEC & TWO
        for [1, 2): arg0 | VEC & TWO
        for [1, 2): iv | VEC & TWO
        for [1, 3): " " | VEC & !TWO
        for [1, 3): arg0 | VEC & !TWO
        for [1, 3): iv | VEC & !TWO
    '''.replace('ONE', one).replace('VEC', vec).replace('TWO', two))
    END = '{(_writeIterator == end(_data))}'
    n = 0
    for F in ctx.funcs(T + 'writeData'):
        f = ctx.analyse(F)
        n += 1
        vec = 'Eigen' in F.params[1].t if hasattr(F.params[1], 't') else 'Vector' in str(F.params[1])
        stream.check(ctx, 'tables', f, r'''
            "\n" | %s
            [*_writeIterator == begin(_data)* ? "" : "  "]
        ''' % END + ('''
            idx(arg1, 0)
            for [1, size(arg1)): " "
            for [1, size(arg1)): idx(arg1, iv)
        ''' if vec else 'arg1'), what='writeData %d' % n)
        ctx.spec('tables', f, '''
            when store TXTTableWriter::_writeIterator(*) = *begin(_data)* | %s
            flush) some call *::flush(*)
        ''' % END)
    ctx.need('tables', n, 4)


def logs(ctx):
    """the rows of the log files of coupling schemes and accelerations have the columns of their headers"""
    B = 'precice::cplscheme::BaseCouplingScheme::'
    keep = lambda A, F, D: ctx.policy(A, F, D)
    head, row = ctx.fn(B + 'initializeTXTWriters'), ctx.fn(B + 'advanceTXTWriters')

    def cols(f, fn, pick):
        out = []
        for e in f.call(fn):
            if pick(f.n(e.args[0])):
                f.n.within(e.loops)
                t = f.n(e.args[1])
                f.n.within([])
                if not out or out[-1] != t:
                    out.append(t)
        return out
    it = lambda t: 'iterations.log' in t or '_iterationsWriter' in t
    cv = lambda t: 'convergence.log' in t or '_convergenceWriter' in t
    a, b = cols(head, 'TXTTableWriter::addData', it), cols(row, 'TXTTableWriter::writeData', it)
    ctx.ob('logs', 'columns of the iterations log', a == b and len(a) >= 4, '%s:%d' % (row.F.file, row.F.line), 'the header has %s, a row has %s' % (', '.join(a), ', '.join(b)))
    NS = '!{IntraComm::isSecondary()}'
    ctx.spec('logs', head, '''
        new io::TXTTableWriter(cat(cat("precice-", _localParticipant), "-iterations.log")) | NS
        new io::TXTTableWriter(cat(cat("precice-", _localParticipant), "-convergence.log")) | NS & !{_doesFirstStep}
        call Acceleration::addLogEntries(_acceleration, *) | NS & !{_doesFirstStep} & {_acceleration}
        for _convergenceMeasures: call TXTTableWriter::addData(*, ConvergenceMeasureContext::logHeader(elem(_convergenceMeasures)), TXTTableWriter::DOUBLE) | NS & !{_doesFirstStep}
    '''.replace('NS', NS))
    ctx.spec('logs', row, '''
        call TXTTableWriter::writeData(_iterationsWriter, "TimeWindow", -1*1+_timeWindows || ) | NS
        call TXTTableWriter::writeData(_iterationsWriter, "TotalIterations", _totalIterations) | NS
        call TXTTableWriter::writeData(_iterationsWriter, "Iterations", _iterations) | NS
        call Acceleration::writeLogEntries(_acceleration, _iterationsWriter) | NS & !{_doesFirstStep} & {_acceleration}
    '''.replace(' || ', '').replace('NS', NS))
    conv = ctx.fn(B + 'measureConvergence')
    a, b = cols(head, 'TXTTableWriter::addData', cv), cols(conv, 'TXTTableWriter::writeData', cv)
    ctx.ob('logs', 'columns of the convergence log', a == b and len(a) >= 3, '%s:%d' % (conv.F.file, conv.F.line), 'the header has %s, a row has %s' % (', '.join(a), ', '.join(b)))
    for cls in ('precice::acceleration::BaseQNAcceleration::',):
        h, r = ctx.fn(cls + 'addLogEntries'), ctx.fn(cls + 'writeLogEntries')
        ctx.seen.add(h.F.d.u)
        ctx.seen.add(r.F.d.u)
        a, b = cols(h, 'TXTTableWriter::addData', lambda t: True), cols(r, 'TXTTableWriter::writeData', lambda t: True)
        ctx.ob('logs', 'columns of the acceleration', a == b and len(a) == 3, '%s:%d' % (r.F.file, r.F.line), 'the header has %s, a row has %s' % (', '.join(a), ', '.join(b)))
        ctx.spec('logs', r, '''
            when call TXTTableWriter::writeData(arg0, "QNColumns", *getLSSystemCols*) || when call TXTTableWriter::writeData(arg0, "QNColumns", lout(0, elem(_matrixCols)+phi))
            when call TXTTableWriter::writeData(arg0, "DeletedQNColumns", _nbDelCols)
            when call TXTTableWriter::writeData(arg0, "DroppedQNColumns", _nbDropCols)
        ''')
