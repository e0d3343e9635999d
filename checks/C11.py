"""Serialized objects: what is packed and sent is what is received and unpacked."""
from check import *
from api import *

MIN = 100
S = 'precice::com::serialize::'


def run(ctx):
    mesh(ctx)
    transfer(ctx)
    connection(ctx)
    boxes(ctx)
    stamples(ctx)
    users(ctx)


def mesh(ctx):
    SOME, CONN = '!{(size(arg0._vertices) == 0)}', '{Mesh::hasConnectivity(arg0)}'
    BOTH = SOME + ' & ' + CONN
    t = """
        SIZES) when store SerializedMesh::sizes(*) = init(*, (arg0._dimensions, size(arg0._vertices), size(arg0._edges), size(arg0._triangles), size(arg0._tetrahedra)))
        for arg0._vertices: when call std::copy_n(*elem(arg0._vertices)._coords*, arg0._dimensions, idx(*coords, arg0._dimensions*iv)*) | SOME || for arg0._vertices >> *: when store *coords, arg0._dimensions*iv1+iv)) = *elem(arg0._vertices)._coords*iv* | SOME
        GID) for arg0._vertices: when call vector::push_back(*ids*, elem(arg0._vertices)._globalIndex) | SOME || for arg0._vertices: when call vector::emplace_back(*ids*, elem(arg0._vertices)._globalIndex) | SOME
        LID) for arg0._vertices: call vector::push_back(*ids*, elem(arg0._vertices)._id) | BOTH || for arg0._vertices: call vector::emplace_back(*ids*, elem(arg0._vertices)._id) | BOTH
        order GID < LID
    """
    prev = 'LID'
    for name, cls, n in (('edges', 'Edge', 2), ('triangles', 'Triangle', 3), ('tetrahedra', 'Tetrahedron', 4)):
        for i in range(n):
            lab = '%s%d' % (cls[:3].upper(), i)
            x = '%s::vertex(elem(arg0._%s), %d)._id' % (cls, name, i)
            t += """
        LAB) for arg0._NAME: call vector::push_back(*ids*, X) | BOTH || for arg0._NAME: call vector::emplace_back(*ids*, X) | BOTH
        for arg0._NAME: when call vector::push_back(*ids*, X) | BOTH || for arg0._NAME: when call vector::emplace_back(*ids*, X) | BOTH
        order PREV < LAB
            """.replace('LAB', lab).replace('PREV', prev).replace('NAME', name).replace('X', x)
            prev = lab
    ctx.spec('mesh packing', S + 'SerializedMesh::serialize', t.replace('SOME', SOME).replace('BOTH', BOTH))
    # unpacking: the same layout
    N, E, F = 'idx(sizes, 1)', 'idx(sizes, 2)', 'idx(sizes, 3)'
    SOME = '!{(idx(sizes, 1) == 0)}'
    CONN = '{(0 < idx(sizes, 2)+idx(sizes, 3)+idx(sizes, 4))}'
    base = {'Edge': '2*idx(sizes, 1)', 'Triangle': '2*idx(sizes, 1)+2*idx(sizes, 2)', 'Tetrahedron': '2*idx(sizes, 1)+2*idx(sizes, 2)+3*idx(sizes, 3)'}
    f = ctx.fn(S + 'SerializedMesh::addToMesh')
    ctx.spec('mesh unpacking', f, """
        for [0, N): when call std::copy_n(idx(coords, arg0._dimensions*iv)*, arg0._dimensions, *) | SOME || for [0, N) >> *: when store *, iv)* = idx(coords, arg0._dimensions*iv1+iv) | SOME || for [0, N): when call Mesh::createVertex(arg0, *idx(coords, arg0._dimensions*iv)*arg0._dimensions*) | SOME
        NEW) for [0, N): call Mesh::createVertex(arg0, *) | SOME
        for [0, N): call Vertex::setGlobalIndex(Mesh::createVertex(arg0, *), idx(ids, 2*iv)) | SOME & CONN
        for [0, N): call Vertex::setGlobalIndex(Mesh::createVertex(arg0, *), idx(ids, iv)) | SOME & !CONN
        for [0, N): call map::emplace(*, idx(ids, 1+2*iv), Mesh::createVertex(arg0, *)) | SOME & CONN || for [0, N): call map::insert*(*, *idx(ids, 1+2*iv), Mesh::createVertex(arg0, *)*) | SOME & CONN || for [0, N): store *idx(*, idx(ids, 1+2*iv))* = Mesh::createVertex(arg0, *) | SOME & CONN
    """.replace('SOME', SOME).replace('CONN', CONN).replace('N)', N + ')'))
    size = {'Edge': 2, 'Triangle': 3, 'Tetrahedron': 4}
    cnt = {'Edge': 'idx(sizes, 2)', 'Triangle': 'idx(sizes, 3)', 'Tetrahedron': 'idx(sizes, 4)'}
    order = []
    for c in ('Edge', 'Triangle', 'Tetrahedron'):
        ev = list(f.call('Mesh::create' + c))
        ctx.ob('mesh unpacking', 'addToMesh creates every %s once' % c, len(ev) == 1 and len(ev[0].loops) == 1, ev[0].loc if ev else '', '%d calls' % len(ev))
        if len(ev) != 1:
            continue
        e = ev[0]
        order.append(e.seq)
        got = [f.n(x) for x in e.args[1:]]
        want = [poly(c, base[c], i, size[c]) for i in range(size[c])]
        ok = len(got) == len(want) and all(any(('idx(ids, %s)' % w) in g for w in ws) for g, ws in zip(got, want))
        ctx.ob('mesh unpacking', '%s: vertex i is entry %d*k + i after the %s part' % (c, size[c], 'vertex' if c == 'Edge' else 'previous'), ok, e.loc, '' if ok else 'found %s' % got)
    ctx.spec('mesh unpacking', 'precice::mesh::Mesh::hasConnectivity', 'returns | !{(size(_edges) == 0)} | !{(size(_triangles) == 0)} | !{(size(_tetrahedra) == 0)}')
    # the references kept while vertices are created stay valid
    n = 0
    for fld in ('_vertices', '_edges', '_triangles', '_tetrahedra'):
        t = [D.t for D in ctx.P.decl.values() if D.k == 'field' and D.q == 'precice::mesh::Mesh::' + fld]
        n += len(t[:1])
        ctx.ob('stable references', 'Mesh::%s keeps references valid when elements are added' % fld, bool(t) and all(not re.search(r'std::vector', x) for x in t), 'src/mesh/Mesh.hpp', str(t[:1]))
    ctx.need('stable references', n, 4)


def poly(c, base, i, n):
    """texts of base + n*k + i"""
    r = []
    for one in ('%d*1' % i, str(i)):
        parts = base.split('+') + ['%d*iv' % n] + ([] if i == 0 else ['1'] if i == 1 else [one])
        r.append('+'.join(sorted(parts)))
    return r


def transfer(ctx):
    SM = S + 'SerializedMesh::'
    MORE = '{(0 < idx(*sizes, 1))}'
    ctx.spec('transfer', SM + 'send', """
        a) call Communication::sendRange(arg0, sizes, arg1)
        b) call Communication::sendRange(arg0, coords, arg1) | {(0 < idx(sizes, 1))}
        c) call Communication::sendRange(arg0, ids, arg1) | {(0 < idx(sizes, 1))}
        order a < b < c
        when call Communication::sendRange(arg0, sizes, arg1)
    """)
    ctx.spec('transfer', SM + 'receive', """
        a) when store SerializedMesh::sizes(*) = Communication::receiveRange(arg0, arg1, *)
        b) store SerializedMesh::coords(*) = Communication::receiveRange(arg0, arg1, *) | MORE
        c) store SerializedMesh::ids(*) = Communication::receiveRange(arg0, arg1, *) | MORE
        order a < b < c
    """.replace('MORE', MORE))
    ctx.spec('transfer', SM + 'broadcastSend', """
        a) when call Communication::broadcast(arg0, sizes)
        b) call Communication::broadcast(arg0, coords) | {(0 < idx(sizes, 1))}
        c) call Communication::broadcast(arg0, ids) | {(0 < idx(sizes, 1))}
        order a < b < c
    """)
    ctx.spec('transfer', SM + 'broadcastReceive', """
        a) when call Communication::broadcast(arg0, *sizes, *0*)
        b) call Communication::broadcast(arg0, *coords, *0*) | MORE
        c) call Communication::broadcast(arg0, *ids, *0*) | MORE
        order a < b < c
    """.replace('MORE', MORE))
    for c, x in (('SerializedConnectionMap', 'content'), ('SerializedBoundingBox', 'coords')):
        ctx.spec('transfer', S + c + '::send', 'call Communication::sendRange(arg0, %s, arg1)' % x)
        ctx.spec('transfer', S + c + '::receive', 'store %s::%s(*) = Communication::receiveRange(arg0, arg1, *)' % (c, x))
    ctx.spec('transfer', S + 'SerializedConnectionMap::broadcastSend', 'call Communication::broadcast(arg0, content)')
    ctx.spec('transfer', S + 'SerializedConnectionMap::broadcastReceive', 'call Communication::broadcast(arg0, *content, 0)')
    B = S + 'SerializedBoundingBoxMap::'
    ctx.spec('transfer', B + 'send', """
        a) when call Communication::sendRange(arg0, info, arg1)
        b) call Communication::sendRange(arg0, coords, arg1) | {(1 < size(info))}
        order a < b
    """)
    ctx.spec('transfer', B + 'receive', """
        a) when store SerializedBoundingBoxMap::info(*) = Communication::receiveRange(arg0, arg1, *)
        b) store SerializedBoundingBoxMap::coords(*) = Communication::receiveRange(arg0, arg1, *) | {(1 < size(*))}
        order a < b
    """)
    ctx.spec('transfer', B + 'broadcastSend', """
        a) when call Communication::broadcast(arg0, info)
        b) call Communication::broadcast(arg0, coords) | {(1 < size(info))}
        order a < b
    """)
    ctx.spec('transfer', B + 'broadcastReceive', """
        a) when call Communication::broadcast(arg0, *info, 0)
        b) call Communication::broadcast(arg0, *coords, 0) | {(1 < size(*))}
        order a < b
    """)
    # number and kinds of transfers on both sides
    n = 0
    for c in ('SerializedMesh', 'SerializedConnectionMap', 'SerializedBoundingBox', 'SerializedBoundingBoxMap'):
        for a, b in (('send', 'receive'), ('broadcastSend', 'broadcastReceive')):
            if c == 'SerializedBoundingBox' and a != 'send':
                continue
            f, g = ctx.fn(S + c + '::' + a), ctx.fn(S + c + '::' + b)
            x = [[self_type(ctx, e) for e in h.events if e.kind == 'call' and e.d is not None and (e.d.c or '') == 'precice::com::Communication' and e.d.n in ('sendRange', 'receiveRange', 'broadcast', 'send', 'receive')] for h in (f, g)]
            n += 1
            ctx.ob('same transfers', '%s: %s and %s transfer the same types in the same order' % (c, a, b), x[0] == x[1] and len(x[0]) > 0, f.F.file, '%s / %s' % tuple(x))
    ctx.need('same transfers', n, 7)


def self_type(ctx, e):
    t = ' '.join(e.d.ps) + ' ' + (e.d.t or '')
    return 'double' if 'double' in t else 'int'


def connection(ctx):
    C = S + 'SerializedConnectionMap::'
    ctx.spec('connection map', C + 'serialize', """
        n) when call vector::push_back(*content*, size(arg0))
        r) for arg0: when call vector::push_back(*content*, elem(arg0).first)
        s) for arg0: when call vector::push_back(*content*, size(elem(arg0).second))
        i) for arg0: when call vector::insert(*content*, *end(*content*)*, begin(elem(arg0).second), end(elem(arg0).second)) || i) for arg0 >> elem(arg0).second: when call vector::push_back(*content*, elem(elem(arg0).second)) || i) for arg0: when call std::copy(begin(elem(arg0).second), end(elem(arg0).second), *back_inserter(*content*)
        order n < r < s < i
    """)
    f = ctx.fn(C + 'toConnectionMap')
    ctx.spec('connection map', f, """
        for [0, idx(content, 0)): some call map::emplace(*, at(phi), *vector(2*1+phi, 2*1+at(1+phi)+phi*)*) || for [0, idx(content, 0)): some call map::emplace(*, idx(content, phi), *vector(*begin(content)*2*1+phi*, *2*1*idx(content, 1+phi)*phi*)*)
    """)
    # the reading position: behind the number of items, then behind each item
    n = 0
    for L in f.A.loops:
        for u, init in getattr(L, 'init', {}).items():
            phi = T('phi', L.id, str(u[1]) if isinstance(u, tuple) else str(u))
            if any(phi is x for e in f.call('map::emplace') for a in e.args[1:] for x in gssa.subterms(a)):
                n += 1
                a, b = f.n(init), f.n(L.fin.get(u))
                ctx.ob('connection map', 'toConnectionMap: the first item follows the number of items', a in ('1+begin(content)', '1'), f.F.file, a)
                ctx.ob('connection map', 'toConnectionMap: the next item follows the entries of the item', b in ('2*1+at(1+phi)+phi', '2*1+idx(content, 1+phi)+phi'), f.F.file, b)
    ctx.ob('connection map', 'toConnectionMap: one reading position', n == 1, f.F.file, '%d' % n)


def boxes(ctx):
    B = S + 'SerializedBoundingBox::'
    DIM = 'arg0._dimensions'
    ctx.spec('bounding box', B + 'serialize', """
        n) when call vector::push_back(*coords*, DIM)
        a) when call std::copy_n(*arg0._boundMin*, DIM, *back_inserter(*)) || a) for [0, DIM): when call vector::push_back(*, *arg0._boundMin*iv*)
        b) when call std::copy_n(*arg0._boundMax*, DIM, *back_inserter(*)) || b) for [0, DIM): when call vector::push_back(*, *arg0._boundMax*iv*)
        order n < a < b
    """.replace('DIM', DIM))
    ctx.spec('bounding box', B + 'toBoundingBox', """
        for [0, idx(coords, 0)): when store *(idx(*, 2*iv)) = idx(coords, 1+iv)
        for [0, idx(coords, 0)): when store *(idx(*, 1+2*iv)) = idx(coords, 1+idx(coords, 0)+iv)
        ret return() = BoundingBox(*)
    """)
    M = S + 'SerializedBoundingBoxMap::'
    E = '{(size(arg0) == 0)}'
    DIM = 'begin(arg0).second._dimensions'
    ctx.spec('bounding box', M + 'serialize', """
        when store SerializedBoundingBoxMap::info(*) = init(*, (0)) | E || when call vector::push_back(*info*, 0) | E
        n) when call vector::push_back(*info*, size(arg0)) | !E
        d) when call vector::push_back(*info*, DIM) | !E
        r) for arg0: when call vector::push_back(*info*, elem(arg0).first) | !E
        a) for arg0: when call std::copy_n(*elem(arg0).second._boundMin*, DIM, *back_inserter(*)) | !E || a) for arg0 >> [0, DIM): when call vector::push_back(*coords*, *elem(arg0).second._boundMin*iv*) | !E
        b) for arg0: when call std::copy_n(*elem(arg0).second._boundMax*, DIM, *back_inserter(*)) | !E || b) for arg0 >> [0, DIM): when call vector::push_back(*coords*, *elem(arg0).second._boundMax*iv*) | !E
        order n < d < r
        order a < b
    """.replace('DIM', DIM).replace('!E', '!' + E).replace('| E', '| ' + E))
    f = ctx.fn(M + 'toBoundingBoxMap')
    SOME = '!{(size(info) == 1)}'
    ctx.spec('bounding box', f, """
        for [0, idx(info, 0)) >> [0, idx(info, 1)): when store *(idx(*, 2*iv)) = idx(coords, 2*idx(info, 1)*iv1+iv) | SOME
        for [0, idx(info, 0)) >> [0, idx(info, 1)): when store *(idx(*, 1+2*iv)) = idx(coords, 2*idx(info, 1)*iv1+idx(info, 1)+iv) | SOME
        for [0, idx(info, 0)): when call map::emplace(*, idx(info, 2*1+iv), *) | SOME || for [0, idx(info, 0)): when call map::insert*(*, idx(info, 2*1+iv), *) | SOME
    """.replace('SOME', SOME))




def stamples(ctx):
    SS = S + 'SerializedStamples::'
    GRAD = '{CouplingData::hasGradient(arg0)}'
    ctx.spec('stamples', SS + 'serialize', """
        t) when store SerializedStamples::_timeSteps(*) = Waveform::nTimes(CouplingData::waveform(arg0)) || t) when store SerializedStamples::_timeSteps(*) = size(CouplingData::stamples(arg0))
        for CouplingData::stamples(arg0) >> *: some store SerializedStamples::_values(*)
        for CouplingData::stamples(arg0) >> *: some store SerializedStamples::_gradients(*) @ *hasGradient*
    """)
    ctx.spec('stamples', SS + 'serializeValues', """
        for CouplingData::stamples(arg0) >> [0, CouplingData::getSize(arg0)): when store SerializedStamples::_values(idx(_values, _timeSteps*iv+iv1)) = idx(elem(CouplingData::stamples(arg0)).sample.values, iv)
    """)
    ctx.spec('stamples', SS + 'serializeGradients', """
        for CouplingData::stamples(arg0) >> *sample.gradients*CouplingData::gradientsCols(arg0)*CouplingData::gradientsRows(arg0)*: when store SerializedStamples::_gradients(idx(_gradients, _timeSteps*iv+iv1)) = idx(*, iv)
    """)
    ctx.spec('stamples', SS + 'allocate', """
        when store SerializedStamples::_values(_values) = VectorXd(CouplingData::getSize(arg0)*_timeSteps)
        when store SerializedStamples::_gradients(_gradients) = VectorXd(CouplingData::getDimensions(arg0)*CouplingData::getSize(arg0)*CouplingData::meshDimensions(arg0)*_timeSteps) | GRAD
    """.replace('GRAD', GRAD))
    ctx.spec('stamples', SS + 'empty', """
        t) when store SerializedStamples::_timeSteps(*) = arg0
        some store SerializedStamples::_values(*)
    """)
    G1 = '{CouplingData::hasGradient(arg1)}'
    ctx.spec('stamples', SS + 'deserialize', """
        CLEAR) when call Waveform::clear(CouplingData::waveform(arg1))
        V) for arg0 >> *CouplingData::getSize(arg1)*: when store *, iv)* = idx(_values, iv*size(arg0)+iv1)
        G) for arg0 >> *CouplingData::gradientsRows(arg1)*CouplingData::gradientsCols(arg1)*: when store *, iv)* = idx(_gradients, iv*size(arg0)+iv1) | G1
        A) for arg0: when call CouplingData::setSampleAtTime(arg1, elem(arg0), Sample(CouplingData::getDimensions(arg1), *VectorXd*)) | !G1
        B) for arg0: when call CouplingData::setSampleAtTime(arg1, elem(arg0), Sample(CouplingData::getDimensions(arg1), *VectorXd*, *MatrixXd(CouplingData::gradientsRows(arg1), CouplingData::gradientsCols(arg1))*)) | G1
        order CLEAR < V < A
        order CLEAR < G < B
    """.replace('G1', G1))
    SIZE = ' || '.join('ret return() = ' + x for x in ('Mesh::nVertices(_mesh)*_data._dimensions', 'CouplingData::getDimensions(this())*Mesh::nVertices(_mesh)', '_data._dimensions*size(_mesh._vertices)'))
    ctx.spec('stamples', 'precice::cplscheme::CouplingData::getSize', SIZE)
    ctx.spec('stamples', 'precice::cplscheme::CouplingData::gradientsRows', 'ret return() = CouplingData::meshDimensions(this()) || ret return() = *_mesh*imensions*')
    ctx.spec('stamples', 'precice::cplscheme::CouplingData::gradientsCols', 'ret return() = CouplingData::getSize(this()) || ' + SIZE)
    ctx.spec('stamples', 'precice::cplscheme::CouplingData::meshDimensions', 'ret return() = *_mesh*imensions*')


def users(ctx):
    X = 'precice::com::'
    for a, ser in (('Mesh', 'SerializedMesh'), ('ConnectionMap', 'SerializedConnectionMap'), ('BoundingBox', 'SerializedBoundingBox'), ('BoundingBoxMap', 'SerializedBoundingBoxMap')):
        ctx.spec('entry points', X + 'send' + a, 'call %s::send(%s::serialize(arg2), arg0, arg1)' % (ser, ser))
        r = '%s::receive(arg0, arg1)' % ser
        if a == 'Mesh':
            ctx.spec('entry points', X + 'receiveMesh', 'call SerializedMesh::addToMesh(%s, arg2)' % r)
            ctx.spec('entry points', X + 'broadcastReceiveMesh', 'call SerializedMesh::addToMesh(SerializedMesh::broadcastReceive(arg0), arg1)')
        else:
            v = '%s::to%s(%s)' % (ser, a, r)
            ctx.spec('entry points', X + 'receive' + a, 'store parameter(arg2) = %s || call *::operator=(arg2, %s)' % (v, v))
            if a != 'BoundingBox':
                ctx.spec('entry points', X + 'broadcastReceive' + a, 'store parameter(arg1) = %s::to%s(%s::broadcastReceive(arg0))' % (ser, a, ser))
        if a != 'BoundingBox':
            ctx.spec('entry points', X + 'broadcastSend' + a, 'call %s::broadcastSend(%s::serialize(arg1), arg0)' % (ser, ser))
