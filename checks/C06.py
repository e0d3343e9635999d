"""Fortran bindings: every routine passes its call on to the operation it is named after with its own arguments in order
(each string with its own hidden length argument, trailing blanks removed; sizes of the passed ranges computed from the
dimensions of the mesh and data it is called with), stores the result in its own output argument, and every error ends in
an abort instead of leaving the library."""
from check import *

MIN = 250
# operation -> (result kind, out argument, strings, arguments); M/D: mesh and data name, MD/DD: their dimensions, N*: other arguments
F_ = {
    'initialize': ('', 0, ''), 'advance': ('', 0, 'a0'), 'finalize': ('', 0, ''),
    'getMeshDimensions': ('v', 1, 'M'), 'getDataDimensions': ('v', 2, 'M, D'),
    'isCouplingOngoing': ('b', 0, ''), 'isTimeWindowComplete': ('b', 0, ''), 'getMaxTimeStepSize': ('v', 0, ''), 'requiresInitialData': ('b', 0, ''),
    'requiresReadingCheckpoint': ('b', 0, ''), 'requiresWritingCheckpoint': ('b', 0, ''), 'requiresMeshConnectivityFor': ('b', 1, 'M'),
    'requiresGradientDataFor': ('b', 2, 'M, D'), 'resetMesh': ('', 0, 'M'), 'getMeshVertexSize': ('v', 1, 'M'),
    'setMeshVertex': ('v', 2, 'M, span(a1, MD)'), 'setMeshVertices': ('', 0, 'M, span(a2, MD*a1), span(a3, a1)'),
    'setMeshEdge': ('', 0, 'M, a1, a2'), 'setMeshEdges': ('', 0, 'M, span(a2, 2*a1)'), 'setMeshTriangle': ('', 0, 'M, a1, a2, a3'),
    'setMeshTriangles': ('', 0, 'M, span(a2, 3*a1)'), 'setMeshQuad': ('', 0, 'M, a1, a2, a3, a4'), 'setMeshQuads': ('', 0, 'M, span(a2, 4*a1)'),
    'setMeshTetrahedron': ('', 0, 'M, a1, a2, a3, a4'), 'setMeshTetrahedra': ('', 0, 'M, span(a2, 4*a1)'),
    'writeData': ('', 0, 'M, D, span(a3, a2), span(a4, DD*a2)'), 'readData': ('', 0, 'M, D, span(a3, a2), a4, span(a5, DD*a2)'),
    'writeAndMapData': ('', 0, 'M, D, span(a3, MD*a2), span(a4, DD*a2)'), 'mapAndReadData': ('', 0, 'M, D, span(a3, MD*a2), a4, span(a5, DD*a2)'),
    'writeGradientData': ('', 0, 'M, D, span(a3, a2), span(a4, DD*MD*a2)'), 'setMeshAccessRegion': ('', 0, 'M, span(a1, 2*MD)'),
    'getMeshVertexIDsAndCoordinates': ('', 0, 'M, span(a2, a1), span(a3, MD*a1)'),
    'startProfilingSection': ('', 0, 'M'), 'stopLastProfilingSection': ('', 0, ''),
}
OLD = {'set_vertex': 'setMeshVertex', 'set_vertices': 'setMeshVertices', 'set_edge': 'setMeshEdge', 'set_triangle': 'setMeshTriangle',
       'set_quad': 'setMeshQuad', 'set_tetrahedron': 'setMeshTetrahedron'}


def snake(n):
    return re.sub(r'(?<=[a-z])([A-Z])', lambda m: '_' + m.group(1).lower(), n.replace('IDs', 'Ids'))


def string(i, n):
    """a string argument cut with its own length argument, and nothing else"""
    return r'(?:[\w:]*\()+arg%d\b(?:(?!\barg\d).)*\barg%d\b(?:(?!\barg\d|Participant::).)*' % (i, n)


def run(ctx):
    keep = lambda A_, F, D_: ctx.policy(A_, F, D_) and D_.n not in ('strippedStringView', 'strippedLength')
    have = {F.d.q: F for F in ctx.P.funcs.values() if F.d.q.startswith('precicef_') and F.body is not None}
    ctx.need('exported Fortran routines', len(have), 43)
    known = {'precicef_create_', 'precicef_create_with_communicator_', 'precicef_get_version_information_'}
    for r, F in sorted(have.items()):
        ctx.ob('Fortran can call the routine (lower case, trailing underscore)', r, r == r.lower() and r.endswith('_'), '%s:%s' % (F.file, F.line))
    work = [(snake(n), n) for n in F_] + sorted(OLD.items())
    for name, op in sorted(work):
        r = 'precicef_%s_' % name
        known.add(r)
        if not ctx.ob('routine exists', r, r in have):
            continue
        F = have[r]
        f = ctx.analyse(F, policy=keep)
        res, out, args = F_[op]
        ns = ('M' in re.findall(r'\w+', args)) + ('D' in re.findall(r'\w+', args))
        base = len(F.params) - ns
        names = [string(i, base + i) for i in range(ns)]
        md = r'Participant::getMeshDimensions\(impl, %s\)' % names[0] if ns else ''
        dd = r'Participant::getDataDimensions\(impl, %s, %s\)' % tuple(names) if ns > 1 else ''

        def sub(m):
            w = m.group(0)
            return {'M': names[0] if ns else '', 'D': names[1] if ns > 1 else '', 'MD': md, 'DD': dd}.get(w) or w
        a = re.sub(r'\b(?:MD|DD|M|D)\b', sub, re.sub(r'\ba(\d)', r'arg\1', args.replace('span(', r'span\(').replace('*', r'\*').replace('),', r'\),').replace(')', r'\)').replace(r'\\', '\\')))
        call = r'Participant::%s\(%s\)' % (op, ', '.join(x for x in ['impl', a] if x))
        B = f.A.B
        mine = f.sel('call', 'Participant::' + op, where=lambda e: re.match(call + r'\Z', q.evtext(f, e)))
        if res in ('', 'v') or len(mine):
            ctx.iff('Fortran routine passes the call on', f.sel('call', 'Participant::' + op), '{impl}', args)
        for e in f.call('Participant::' + op):
            ctx.ob('Fortran routine passes its arguments on in order, strings with their lengths', r + ': ' + args, re.match(call + r'\Z', q.evtext(f, e)) is not None, f.text(e)[:40], q.evtext(f, e)[:300])
        st = [e for e in f.events if e.kind == 'store' and q.evtext(f, e).startswith('parameter(')]
        if not res:
            ctx.ob('routine without result writes no argument', r, not st, '', st and f.text(st[0])[:200] or '')
        elif res == 'v':
            ok = len(st) > 0
            g = 0
            for e in st:
                g = B.OR(g, e.g)
                ok = ok and re.match(r'parameter\(arg%d\) = %s\Z' % (out, call), q.evtext(f, e)) is not None
            ctx.ob('result is stored in the output argument', r, ok and not B.AND(f.N, B.NOT(g)), '', '; '.join(q.evtext(f, e)[:200] for e in st))
        elif st and all(re.match(r'parameter\(arg%d\) = %s\Z' % (out, call), q.evtext(f, e)) for e in st):
            g = 0
            for e in st:
                g = B.OR(g, e.g)
            ctx.ob('result is stored in the output argument', r, not B.AND(f.N, B.NOT(g)))
        else:
            T = [a_ for a_ in f.atoms('re:' + call)]
            ok = len(T) > 0
            gates = {}
            for e in st:
                gates[q.evtext(f, e)] = B.OR(gates.get(q.evtext(f, e), 0), e.g)
            want = {'parameter(arg%d) = 1' % out: f.cond('{re:%s}' % call) if ok else 0, 'parameter(arg%d) = 0' % out: f.cond('!{re:%s}' % call) if ok else 0}
            ok = ok and set(gates) == set(want) and all(B.AND(f.N, gates[k]) == B.AND(f.N, want[k]) for k in want)
            ctx.ob('result is stored in the output argument', r, ok, '', '; '.join('%s | %s' % (k, f.n.gate(v, 2)) for k, v in gates.items())[:300])
        other = [e for e in f.events if e.kind == 'call' and q.short(e.q).startswith('Participant::') and q.short(e.q)[13:] not in ('getMeshDimensions', 'getDataDimensions', op)]
        ctx.ob('Fortran routine calls no other operation', r, not other, '', other and f.text(other[0])[:200] or '')
        ctx.spec('life time of the participant', f, 'store impl(impl) = null()' if op == 'finalize' else 'none store impl(*')
        handler(ctx, f, '!{impl}')
    for r in have:
        ctx.ob('exported Fortran routine is specified', r, r in known, '%s:%s' % (have[r].file, have[r].line))
    create(ctx, have, keep)


def handler(ctx, f, pre):
    ctx.spec('errors abort', f, 'throws | %s | {caught(::precice::Error &)}' % pre)
    B = f.A.B
    g = 0
    for e in f.sel('abort'):
        g = B.OR(g, e.g)
    ctx.ob('every error ends in an abort', f.name, g == f.cond('{caught(::precice::Error &)}'), f.sel('abort').loc, 'abort happens under %s' % f.n.gate(g, 3)[:200])


def create(ctx, have, keep):
    for r, k, more in (('precicef_create_', 4, ''), ('precicef_create_with_communicator_', 5, r', MPI_Comm_f2c\(arg4\)')):
        f = ctx.analyse(have[r], policy=keep)
        a = r'%s, %s, arg2, arg3%s' % (string(0, k), string(1, k + 1), more)
        ctx.spec('Fortran routine creates the participant', f, r'''
            new re:precice::Participant\(%s\)
            store re:impl\(impl\) = new\(precice::Participant, \(%s\), \d+\)
        ''' % (a, a))
        handler(ctx, f, '{impl}')
    ctx.spec('version', 'precicef_get_version_information_', 'call strncpy(arg0, precice::versionInformation, arg1)')
    # strings: only characters of the argument are read, trailing blanks and zeros are cut
    f = ctx.fn('precice::impl::strippedLength')
    B = f.A.B
    for e in f.sel('peek'):
        pat = '(%s < 0)' % f.n(e.args[1])
        ok = bool(f.atoms(pat)) and not B.AND(e.g, f.cond('{%s}' % pat))
        ctx.ob('only characters inside of the string are read', f.name, ok, f.sel('peek').loc, 'the index may be negative')
    for L in f.A.loops:
        if L.cond is not None:
            c = f.n.gate(L.cond, 6)
            ctx.ob('the length is that of the string without trailing blanks', f.name, "== 32" in c and '== 0)' in c and '< 0)' in c, '%s:%s' % (L.file, L.line), c)
    ctx.spec('trailing blanks are removed', 'precice::impl::strippedStringView', 'ret re:return\\(\\) = (?:std::)?(?:basic_)?string_view\\(arg0, .*\\)')
