"""C++ facade and C bindings: every operation of the public interface is passed on to the operation of the same name with
its own arguments in order (sizes of the passed ranges computed from the dimensions of the mesh and data it is called
with), its result is passed back, and every error ends in an abort instead of leaving the library."""
from check import *

MIN = 200
A = lambda i: r'(?:(?!\barg\d).)*\barg%d\b(?:(?!\barg\d).)*' % i
MD = 'Participant::getMeshDimensions(impl, string_view(arg0))'
DD = 'Participant::getDataDimensions(impl, string_view(arg0), string_view(arg1))'
M, D = 'string_view(arg0)', 'string_view(arg1)'


def prod(*xs):
    return '*'.join(sorted(xs, key=lambda x: (not x.isdigit(), x)))


# operation -> (result kind, arguments)
C = {
    'initialize': ('', []), 'advance': ('', ['arg0']), 'finalize': ('', []),
    'getMeshDimensions': ('v', [M]), 'getDataDimensions': ('v', [M, D]), 'isCouplingOngoing': ('b', []), 'isTimeWindowComplete': ('b', []),
    'getMaxTimeStepSize': ('v', []), 'requiresInitialData': ('b', []), 'requiresWritingCheckpoint': ('b', []), 'requiresReadingCheckpoint': ('b', []),
    'requiresMeshConnectivityFor': ('b', [M]), 'requiresGradientDataFor': ('b', [M, D]), 'resetMesh': ('', [M]), 'getMeshVertexSize': ('v', [M]),
    'setMeshVertex': ('v', [M, 'span(arg1, %s)' % MD]),
    'setMeshVertices': ('', [M, 'span(arg2, %s)' % prod(MD, 'arg1'), 'span(arg3, arg1)']),
    'setMeshEdge': ('', [M, 'arg1', 'arg2']), 'setMeshEdges': ('', [M, 'span(arg2, 2*arg1)']),
    'setMeshTriangle': ('', [M, 'arg1', 'arg2', 'arg3']), 'setMeshTriangles': ('', [M, 'span(arg2, 3*arg1)']),
    'setMeshQuad': ('', [M, 'arg1', 'arg2', 'arg3', 'arg4']), 'setMeshQuads': ('', [M, 'span(arg2, 4*arg1)']),
    'setMeshTetrahedron': ('', [M, 'arg1', 'arg2', 'arg3', 'arg4']), 'setMeshTetrahedra': ('', [M, 'span(arg2, 4*arg1)']),
    'writeData': ('', [M, D, 'span(arg3, arg2)', 'span(arg4, %s)' % prod(DD, 'arg2')]),
    'readData': ('', [M, D, 'span(arg3, arg2)', 'arg4', 'span(arg5, %s)' % prod(DD, 'arg2')]),
    'writeAndMapData': ('', [M, D, 'span(arg3, %s)' % prod(MD, 'arg2'), 'span(arg4, %s)' % prod(DD, 'arg2')]),
    'mapAndReadData': ('', [M, D, 'span(arg3, %s)' % prod(MD, 'arg2'), 'arg4', 'span(arg5, %s)' % prod(DD, 'arg2')]),
    'writeGradientData': ('', [M, D, 'span(arg3, arg2)', 'span(arg4, %s)' % prod(DD, MD, 'arg2')]),
    'setMeshAccessRegion': ('', [M, 'span(arg1, 2*%s)' % MD]),
    'getMeshVertexIDsAndCoordinates': ('', [M, 'span(arg2, arg1)', 'span(arg3, %s)' % prod(MD, 'arg1')]),
    'startProfilingSection': ('', [M]), 'stopLastProfilingSection': ('', []),
}


def run(ctx):
    facade(ctx)
    binding(ctx)


def facade(ctx):
    keep = lambda A_, F, D_: ctx.policy(A_, F, D_) and not D_.q.endswith('toSV')
    ops = [F for F in ctx.P.funcs.values() if F.d.q.startswith('precice::Participant::') and F.body is not None and not F.dep and '~' not in F.d.q]
    ctx.need('public operations', len(ops), 34)
    seen = set()
    for F in sorted(ops, key=lambda F: (F.d.q, len(F.params))):
        n = F.d.q.split('::')[-1]
        f = ctx.analyse(F, policy=keep)
        seen.add(n)
        if n == 'Participant':
            args = ', '.join(A(i) for i in range(len(F.params)))
            if len(F.params) == 4:
                args += r', (?:std::)?nullopt\w*(?:\(\))?'
            ctx.spec('construction', f, r'''
                new re:impl::ParticipantImpl\(%s\)
                store re:Participant::_impl\(_impl\) = new\(impl::ParticipantImpl, \(%s\), \d+\)
            ''' % (args, args))
            continue
        pat = r'ParticipantImpl::%s\(_impl%s\)' % (n, ''.join(', ' + A(i) for i in range(len(F.params))))
        ret = not (F.d.t or '').startswith('void')
        ctx.spec('facade passes the call on', f, r'''
            some call re:%s
            throws? | F
        ''' % pat if not ret else r'''
            ret re:return\(\) = %s
        ''' % pat)
        other = [e for e in f.events if e.kind == 'call' and short(e.q).startswith('ParticipantImpl::') and short(e.q) != 'ParticipantImpl::' + n]
        ctx.ob('facade calls no other operation', f.name, not other, f.sel('call').loc, other and f.text(other[0])[:200] or '')
        mine = f.call('ParticipantImpl::' + n)
        ctx.iff('facade always passes the call on, once', mine, 'T')
        for i, a in enumerate(mine):
            for b in mine.evs[i + 1:]:
                ctx.ob('facade passes the call on once', f.name, not f.A.B.AND(a.g, b.g), f.sel('call').loc, 'the operation is called twice')
    for n in C:
        ctx.ob('operation is part of the facade', n, n in seen)


def handler(ctx, f, pre):
    """the operation needs / refuses an existing participant, and no error leaves the binding"""
    ctx.spec('errors abort', f, 'throws | %s | {caught(::precice::Error &)}' % pre)
    B = f.A.B
    g = 0
    for e in f.sel('abort'):
        g = B.OR(g, e.g)
    c = f.cond('{caught(::precice::Error &)}')
    ctx.ob('every error ends in an abort', f.name, g == c, f.sel('abort').loc, 'abort happens under %s' % f.n.gate(g, 3)[:200])


def binding(ctx):
    for n, (res, args) in sorted(C.items()):
        f = ctx.fn('precicec_' + n)
        call = 'Participant::%s(%s)' % (n, ', '.join(['impl'] + args))
        if res == 'b' and not any(q.evtext(f, e) == 'return() = ' + call for e in f.rets()):
            t = 'call %s\n ret return() = 1 | {%s}\n ret return() = 0 | !{%s}' % (call, call, call)
        elif res:
            t = 'ret return() = ' + call
        else:
            t = 'call ' + call
        ctx.spec('C binding passes the call on', f, t)
        ctx.iff('C binding passes the call on once', f.call('Participant::' + n), '{impl}')
        handler(ctx, f, '!{impl}')
        changes = {'getMeshDimensions', 'getDataDimensions', n}
        other = [e for e in f.events if e.kind == 'call' and short(e.q).startswith('Participant::') and short(e.q)[13:] not in changes]
        ctx.ob('C binding calls no other operation', f.name, not other, f.sel('call').loc, other and f.text(other[0])[:200] or '')
        ctx.spec('life time of the participant', f, 'store impl(impl) = null()' if n == 'finalize' else 'none store impl(*')
    for n, k in (('createParticipant', 4), ('createParticipant_withCommunicator', 5)):
        f = ctx.fn('precicec_' + n)
        a = ', '.join('arg%d' % i for i in range(k))
        ctx.spec('C binding creates the participant', f, '''
            new precice::Participant(%s)
            store impl(impl) = new(precice::Participant, (%s), *)
        ''' % (a, a))
        handler(ctx, f, '{impl}')
    ctx.spec('version', 'precicec_getVersionInformation', 'ret return() = precice::versionInformation')
    exp = [F for F in ctx.P.funcs.values() if F.d.q.startswith('precicec_') and F.body is not None]
    ctx.need('exported C functions', len(exp), 36)
    for F in exp:
        n = F.d.q[9:]
        ctx.ob('exported C function is specified', n, n in C or n.startswith('createParticipant') or n in ('getVersionInformation', 'printHello'), '%s:%s' % (F.file, F.line))
