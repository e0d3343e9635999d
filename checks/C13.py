"""Mapping methods: every value is combined from the matched vertices with the matching weights. Gated summaries of the methods and of the search
structures; the barycentric coordinates are compared with their definition as rational functions."""
from check import *
from api import *
from algebra import *
import os
import facts
from q import evtext

MIN = 300
NB = 'precice::mapping::NearestNeighborBaseMapping::'
NN = 'precice::mapping::NearestNeighborMapping::'
NG = 'precice::mapping::NearestNeighborGradientMapping::'
NP = 'precice::mapping::NearestProjectionMapping::'
LC = 'precice::mapping::LinearCellInterpolationMapping::'
BB = 'precice::mapping::BarycentricBaseMapping::'
PO = 'precice::mapping::Polation::'
BC = 'precice::math::barycenter::calcBarycentricCoordsFor'
CONS = '{(_constraint == Mapping::CONSERVATIVE)}'


def definition(kind, v, u):
    """barycentric coordinates of the (projected) point"""
    if kind == 'Edge':
        a, b = v
        t = dot(sub(u, a), sub(b, a)) / dot(sub(b, a), sub(b, a))
        return [1 - t, t]
    if kind == 'Triangle' and len(u) == 2:
        a, b, c = v
        D = det2(sub(b, a), sub(c, a))
        w = [det2(sub(b, u), sub(c, u)) / D, det2(sub(c, u), sub(a, u)) / D]
        return w + [1 - w[0] - w[1]]
    if kind == 'Triangle':
        a, b, c = v
        n = cross(sub(b, a), sub(c, a))
        N = dot(n, n)
        w = [dot(n, cross(sub(c, b), sub(u, b))) / N, dot(n, cross(sub(a, c), sub(u, c))) / N]
        return w + [1 - w[0] - w[1]]
    a, b, c, d = v
    vol = lambda p, q, r, s: dot(sub(q, p), cross(sub(r, p), sub(s, p)))
    V = vol(a, b, c, d)
    w = [vol(a, u, c, d) / V, vol(a, b, u, d) / V, vol(a, b, c, u) / V]
    return [1 - w[0] - w[1] - w[2]] + w


DIMS = {'Edge': (2, 3), 'Triangle': (2, 3), 'Tetrahedron': (3,)}


def fixdim(f, d):
    """the function for vectors with d components: all its sizes agree"""
    l = []
    for a in f.atoms(r'*'):
        s = f.n.atom(f.A.B.atoms[a] if isinstance(a, int) else a)
        m = re.match(r'\(size\(arg\d\) == (\d)\)$', s)
        if m:
            l.append(('' if int(m[1]) == d else '!') + '{' + s + '}')
    return f.given(' & '.join(sorted(set(l)))) if l else f


def barycentric(ctx):
    """coordinates relative to edges, triangles and tetrahedra are the affine ones of the orthogonal projection"""
    R = 'barycentric'
    for kind, dims in DIMS.items():
        f = ctx.fn(BC + kind)
        n = len(f.F.params) - 1
        for d in dims:
            v, u = [vec('abcd'[i], d) for i in range(n)], vec('u', d)
            want = definition(kind, v, u)
            g = fixdim(f, d)
            rets = g.rets()
            detail = '' if rets else 'no value returned'
            for e in rets:
                try:
                    got = Eval(lambda t: (v + [u])[t.a[1]] if t.k == 'par' else None)(e.val)
                    for i, w in enumerate(want):
                        if not same(got[i], w):
                            detail = detail or 'coordinate %d is %s' % (i, str(got[i])[:300])
                except Unsupported as x:
                    detail = 'not understood: %s' % x
            ctx.ob(R, '%s: coordinates in %d dimensions' % (f.name, d), not detail, '%s:%d' % (f.F.file, f.F.line), detail)


def polation(ctx):
    """every corner is listed once, with its own weight; the distance is the one to the projection"""
    R = 'polation'
    for f in [ctx.analyse(F, policy=lambda A, F, D: ctx.policy(A, F, D) and not D.q.startswith('precice::math::barycenter')) for F in ctx.funcs(PO + 'Polation')]:
        ps = [p.t for p in f.F.params]
        if len(ps) != 2:
            continue
        ctx.seen.add(f.F.d.u)
        kind = ps[1].replace('const ', '').rstrip('& ').rsplit('::', 1)[-1]
        n = {'Vertex': 1, 'Edge': 2, 'Triangle': 3, 'Tetrahedron': 4}.get(kind)
        if n is None:
            raise AnalysisError('%s: unknown constructor %s' % (f.name, ps))
        loc = '%s:%d' % (f.F.file, f.F.line)
        for d in DIMS.get(kind, (2, 3)):
            v, u = [vec('abcd'[i], d) for i in range(n)], vec('u', d)
            bary = definition(kind, v, u) if n > 1 else [Rat.const(1)]

            def corner(t):
                s = f.n(t)
                m = re.match(r'\w+::vertex\(arg1, (\d)\)$', s)
                return int(m[1]) if m else 0 if s == 'arg1' and n == 1 else None

            def env(t):
                if t.k == 'par':
                    return u if t.a[1] == 0 else None
                if t.k == 'call' and t.a[1].endswith('Vertex::getCoords'):
                    i = corner(t.a[2][0])
                    return v[i] if i is not None and i < n else None
                if t.k == 'call' and t.a[1] == BC + kind:
                    a = [ev(x) for x in t.a[2]]
                    return definition(kind, a[:-1], a[-1])
                if t.k == 'lv' and t.a[1] in f.A.linit:
                    return ev(f.A.linit[t.a[1]])
                return None
            ev = Eval(env)
            det = []
            st = [e for e in f.events if e.kind == 'store' and e.q.endswith('::_weightedElements') and f.n(e.val) != 'static_vector()']
            if len(st) != 1:
                det.append('%d lists of weights' % len(st))
            else:
                seen = set()
                try:
                    for el in st[0].val.a[2]:
                        i = corner(el.a[2][0].a[1])
                        if i is None or i in seen or not f.n(el.a[2][0]).endswith('._id'):
                            det.append('corner %s' % f.n(el.a[2][0]))
                            continue
                        seen.add(i)
                        if not same(ev(el.a[2][1]), bary[i]):
                            det.append('weight of corner %d is not its barycentric coordinate' % i)
                    if seen != set(range(n)):
                        det.append('corners %s' % sorted(seen))
                except (Unsupported, IndexError, AttributeError) as x:
                    det.append('not understood: %s' % x)
            ctx.ob(R, '%s of %s, %d dimensions: weights' % (f.name, kind, d), not det, loc, '; '.join(det))
            p = [Rat.const(0)] * d
            for i in range(n):
                p = add(p, [bary[i] * x for x in v[i]])
            det = []
            st = [e for e in f.events if e.kind == 'store' and e.q.endswith('::_distance')]
            for e in st[-1:]:
                try:
                    got = ev(e.val)
                    ok = same(got, Rat.const(0)) if n == 4 else same(got, fun('norm', sub(u, p)))
                    if not ok:
                        det.append('distance is not the one to the projected point: %s' % f.n(e.val)[:200])
                except Unsupported as x:
                    det.append('not understood: %s' % x)
            ctx.ob(R, '%s of %s, %d dimensions: distance' % (f.name, kind, d), st and not det, loc, '; '.join(det) or 'no distance')
    ctx.returns(R, ctx.fn(PO + 'isInterpolation'), '!{any(_weightedElements: !math::greaterEquals(elem(_weightedElements).weight, 0, 1e-14))}')
    ctx.spec(R, PO + 'nElements', 'ret return() = size(_weightedElements)')
    ctx.spec(R, PO + 'distance', 'ret return() = _distance')
    ctx.spec(R, PO + 'getWeightedElements', 'ret return() = _weightedElements')


def search(ctx):
    """what the index finds: nearest elements of its own mesh, whose trees hold every element; projections only onto elements that contain the point"""
    R = 'search'
    I_ = 'precice::query::Index::'
    OWN = ('getVertexRTree', 'getEdgeRTree', 'getTriangleRTree', 'getTetraRTree', 'findNearestProjection', 'findVertexProjection', 'findEdgeProjection',
           'findTriangleProjection', 'getClosestVertex', 'getClosestEdges', 'getClosestTriangles', 'getEnclosingTetrahedra')
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in OWN
    fn = lambda q, **kw: ctx.fn(I_ + q, policy=keep, **kw)
    for kind, tree, el, box in (('Vertex', 'vertexRTree', 'vertices', None), ('Edge', 'edgeRTree', 'edges', None),
                                ('Triangle', 'triangleRTree', 'triangles', 'return_envelope'), ('Tetra', 'tetraRTree', 'tetrahedra', 'makeBox')):
        f = fn('IndexImpl::get%sRTree' % kind)
        NEW = '!{indices.%s}' % tree
        SZ = 'Mesh::nVertices(arg0)' if el == 'vertices' else 'size(arg0._%s)' % el
        if box is None:
            ctx.spec(R, f, """
                store MeshIndices::<T>(indices.<T>) = new(*rtree*, (boost::irange(0, <N>), *(arg0._<E>))*) | <NEW>
                ret return() = indices.<T> | !<NEW>
                ret return() = new(*rtree*, (boost::irange(0, <N>), *(arg0._<E>))*) | <NEW> || ret return() = indices.<T> | <NEW>
            """.replace('<NEW>', NEW).replace('<T>', tree).replace('<N>', SZ).replace('<E>', el))
        else:
            ctx.spec(R, f, """
                for arg0._<E>: call vector::*_back(*, *%s(elem(arg0._<E>))*, iv*) | <NEW>
                store MeshIndices::<T>(indices.<T>) = new(*rtree*, (lout(*vector()*, phi), *)*) | <NEW>
                ret return() = indices.<T> | !<NEW>
            """.replace('<NEW>', NEW).replace('<T>', tree).replace('<E>', el) % box)
    ctx.spec(R, fn('clear'), """
        store MeshIndices::vertexRTree(*) = null()
        store MeshIndices::edgeRTree(*) = null()
        store MeshIndices::triangleRTree(*) = null()
        store MeshIndices::tetraRTree(*) = null()
    """)
    for q, tree, n, m in (('getClosestVertex', 'Vertex', '1', 'call MatchType::operator=(phi, VertexMatch(p0))'), ('getClosestVertices', 'Vertex', 'arg1', 'call vector::*_back(phi, p0)'),
                          ('getClosestEdges', 'Edge', 'arg1', 'call vector::*_back(phi, p0)'), ('getClosestTriangles', 'Triangle', 'arg1', 'call vector::*_back(phi, p0.second)'),
                          ('getEnclosingTetrahedra', 'Tetra', None, 'call vector::*_back(phi, p0.second)')):
        ctx.spec(R, fn(q), """
            call IndexImpl::get%sRTree(_pimpl, _mesh)
            %s
            for lambda: %s
        """ % (tree, 'call index::nearest(arg0, %s)' % n if n else 'call index::covers(arg0)', m))
    TWO = '{(_mesh._dimensions == 2)}'
    ctx.spec(R, fn('findVertexProjection'), 'ret return() = ProjectionMatch(Polation(arg0, Mesh::vertex(_mesh, Index::getClosestVertex(this(), arg0).index)))')
    ctx.spec(R, fn('findNearestProjection'), """
        ret return() = Index::findEdgeProjection(this(), arg0, arg1, Index::findVertexProjection(this(), arg0)) | TWO
        ret return() = Index::findTriangleProjection(this(), arg0, arg1, Index::findVertexProjection(this(), arg0)) | !TWO
    """.replace('TWO', TWO))
    T = 'Index::getClosestTriangles(this(), arg0, arg1)'
    Q = 'Index::getEnclosingTetrahedra(this(), arg0)'
    PT = 'Polation(arg0, idx(_mesh._triangles, *%s*.index))' % T      # of an element, also if indexed
    PQ = 'Polation(arg0, idx(_mesh._tetrahedra, *%s*))' % Q
    ctx.spec(R, fn('findCellOrProjection'), """
        for <T> BREAKS: ret return() = ProjectionMatch(<PT>) | TWO & {Polation::isInterpolation(<PT>)}
        for <Q> BREAKS: ret return() = ProjectionMatch(<PQ>) | !TWO & {Polation::isInterpolation(<PQ>)}
        ret return() = Index::findNearestProjection(this(), arg0, arg1) | TWO & !{any(<T>: Polation::isInterpolation(<PT>))} | !TWO & !{any(<Q>: Polation::isInterpolation(<PQ>))}
    """.replace('<PT>', PT).replace('<PQ>', PQ).replace('<T>', T).replace('<Q>', Q).replace('TWO', TWO))
    NONE = '{(size(lout(*)) == 0)}'
    NEAR = '{(arg2.polation._distance < std::min_element(*).polation._distance)}'
    for q, get, el, fall in (('findEdgeProjection', 'getClosestEdges', '_edges', 'arg2'), ('findTriangleProjection', 'getClosestTriangles', '_triangles', 'Index::findEdgeProjection(this(), arg0, arg1, arg2)')):
        G = 'Index::%s(this(), arg0, arg1)' % get
        P = 'Polation(arg0, idx(_mesh.%s, elem(%s).index))' % (el, G)
        ctx.spec(R, fn(q), """
            for <G>: call vector::*_back(phi, *<P>*) | {Polation::isInterpolation(<P>)}
            ret return() = <F> | NONE | NEAR
            ret return() = std::min_element(*) | !NONE & !NEAR
        """.replace('<G>', G).replace('<P>', P).replace('<F>', fall).replace('NONE', NONE).replace('NEAR', NEAR))
    ctx.returns(R, ctx.fn('precice::query::ProjectionMatch::operator<'), '{(polation._distance < arg0.polation._distance)}')
    NEARBOX = 'query::makeBox(*-1*arg1+*Vertex::getCoords(arg0)*, *arg1+*Vertex::getCoords(arg0)*)'
    for q in ('getVerticesInsideBox', 'isAnyVertexInsideBox'):
        f = fn(q, ptype='const*mesh::Vertex*')
        ctx.spec(R, f, """
            call IndexImpl::getVertexRTree(_pimpl, _mesh)
            some call index::intersects(%s)
            some call index::satisfies(lambda{<(geometry::distance(arg0, Mesh::vertex(_mesh, p0)) < arg1)>})
        """ % NEARBOX)
    ctx.spec(R, fn('getVerticesInsideBox', ptype='const*BoundingBox*'), """
        call IndexImpl::getVertexRTree(_pimpl, _mesh)
        call index::intersects(query::makeBox(arg0._boundMin, arg0._boundMax))
    """)


def methods(ctx):
    """per method and direction: which mesh is searched for which points, and how the values of the matches are combined"""
    base = ('computeMapping', 'addPolation', 'postProcessOperations', 'onMappingComputed', 'findNearestProjection', 'findCellOrProjection', 'getClosestVertex')
    pol = lambda A, F, D: (D.n in ('hasConstraint', 'isScaledConsistent') or ctx.policy(A, F, D)) and D.n not in base
    fn = lambda q, **kw: ctx.fn(q, policy=pol, **kw)
    R = 'search space'
    # consistent: values are wanted at the output vertices and found on the input mesh; conservative: the other way round
    for con, org, sea in ((CONS, '_input', '_output'), ('!' + CONS, '_output', '_input')):
        rep = lambda s: s.replace('<O>', org).replace('<S>', sea)
        ctx.spec(R, fn(NB + 'computeMapping').given(con), rep("""
            Z) call vector::resize(_vertexIndices, Mesh::nVertices(<O>))
            A) for [0, Mesh::nVertices(<O>)): store NearestNeighborBaseMapping::_vertexIndices(idx(_vertexIndices, iv)) = Index::getClosestVertex(<S>._index, Vertex::getCoords(idx(<O>._vertices, iv))).index || for <O>._vertices: store NearestNeighborBaseMapping::_vertexIndices(idx(_vertexIndices, iv)) = Index::getClosestVertex(<S>._index, Vertex::getCoords(elem(<O>._vertices))).index
            call NearestNeighborBaseMapping::onMappingComputed(this(), <O>, *<S>*)
            store Mapping::_hasComputedMapping(_hasComputedMapping) = 1
            order Z < A
        """))
        for q, find in ((NP, 'findNearestProjection'), (LC, 'findCellOrProjection')):
            ctx.spec(R, fn(q + 'computeMapping').given(con), rep("""
                C) call vector::clear(_operations)
                A) for <O>._vertices: call BarycentricBaseMapping::addPolation(this(), elem(<O>._vertices)._id, Index::<F>(<S>._index, Vertex::getCoords(elem(<O>._vertices)), 4).polation)
                P) call BarycentricBaseMapping::postProcessOperations(this())
                store Mapping::_hasComputedMapping(_hasComputedMapping) = 1
                order C < A < P
            """).replace('<F>', find))
    ctx.spec(R, fn(NB + 'clear'), """
        call vector::clear(_vertexIndices)
        store Mapping::_hasComputedMapping(_hasComputedMapping) = 0
    """)
    ctx.spec(R, fn(BB + 'clear'), """
        call vector::clear(_operations)
        store Mapping::_hasComputedMapping(_hasComputedMapping) = 0
    """)
    W = 'elem(arg1._weightedElements)'
    ctx.spec(R, fn(BB + 'addPolation'), """
        for arg1._weightedElements: call vector::*_back(_operations, *(arg0, <W>.vertexID, <W>.weight)*) | !{math::equals(<W>.weight, 0, 1e-14)}
    """.replace('<W>', W))

    f = ctx.fn(BB + 'postProcessOperations')
    bad = [e for e in f.events if e.kind == 'store' and e.q.endswith(('::in', '::out', '::weight')) or e.kind == 'call' and e.q.split('::')[-1] in
           ('erase', 'resize', 'pop_back', 'clear', 'assign', 'push_back', 'emplace_back', 'insert', 'unique', 'remove_if', 'remove', 'swap', 'reset')]
    ctx.ob(R, 'the operations are only ordered after they were collected', not bad, bad[0].loc if bad else '%s:%d' % (f.F.file, f.F.line), 'changes them by ' + evtext(f, bad[0])[:120] if bad else '')

    R = 'requirements'
    ROLE = {'CONSISTENT': ('FULL', 'VERTEX'), 'CONSERVATIVE': ('VERTEX', 'FULL')}
    for q, bad in ((NP, 'SCALED_CONSISTENT_VOLUME'), (LC, 'SCALED_CONSISTENT_SURFACE')):
        n = q.split('::')[-2]
        f = ctx.fn(q + n, policy=lambda A, F, D: ctx.policy(A, F, D))
        A = lambda c: '{(arg0 == Mapping::%s)}' % c
        ctx.spec(R, f, """
            base BarycentricBaseMapping(arg0, arg1)
            call Mapping::setInputRequirement(this(), MeshRequirement::FULL) | !CV & !BAD
            call Mapping::setOutputRequirement(this(), MeshRequirement::FULL) | !CT & !BAD
            call Mapping::setInputRequirement(this(), MeshRequirement::VERTEX) | CV
            call Mapping::setOutputRequirement(this(), MeshRequirement::VERTEX) | CT
            throws | BAD
        """.replace('CV', A('CONSERVATIVE')).replace('CT', A('CONSISTENT')).replace('BAD', A(bad)))
    for q, grad in ((NN, 0), (NG, 1)):
        n = q.split('::')[-2]
        SC = '{Mapping::isScaledConsistent(this())}'
        ctx.spec(R, ctx.fn(q + n), """
            base NearestNeighborBaseMapping(arg0, arg1, %d, *)
            call Mapping::setInputRequirement(this(), MeshRequirement::FULL) | SC
            call Mapping::setOutputRequirement(this(), MeshRequirement::FULL) | SC
            call Mapping::setInputRequirement(this(), MeshRequirement::VERTEX) | !SC
            call Mapping::setOutputRequirement(this(), MeshRequirement::VERTEX) | !SC
        """.replace('SC', SC) % grad)
    ctx.spec(R, ctx.fn(NB + 'NearestNeighborBaseMapping'), 'base Mapping(arg0, arg1, arg2, InitialGuessRequirement::None)')
    ctx.spec(R, ctx.fn(BB + 'BarycentricBaseMapping'), 'base Mapping(arg0, arg1, 0, InitialGuessRequirement::None)')
    ctx.spec(R, ctx.fn('precice::mapping::Mapping::Mapping', nparams=4), """
        store *_constraint) = arg0
        store *_dimensions) = arg1
        store *_requiresGradientData) = arg2
        store *_initialGuessRequirement) = arg3
        store *_hasComputedMapping) = 0
    """)

    R = 'values'
    IN = 'Map(PlainObjectBase::data(arg0.values), arg0.dataDims, Mesh::nVertices(_input), Stride())'
    OUT = 'Map(PlainObjectBase::data(arg1), arg0.dataDims, Mesh::nVertices(_output), Stride())'
    rep = lambda s: s.replace('<IN>', IN).replace('<OUT>', OUT)
    ctx.spec(R, fn(NN + 'mapConsistent'), rep("""
        for [0, MapBase::cols(<OUT>)): store lv(idx($[<OUT>], tup(col, (iv)))) = DenseBase::col(<IN>, idx(_vertexIndices, iv)) || for *: store lv(idx($[<OUT>], tup(col, (iv)))) = DenseBase::col(<IN>, elem(_vertexIndices))
    """))
    ctx.spec(R, fn(NN + 'mapConservative'), rep("""
        for [0, MapBase::cols(<IN>)): call MatrixBase::operator+=(idx($[<OUT>], tup(col, (idx(_vertexIndices, iv)))), idx($[<IN>], tup(col, (iv)))) || for _vertexIndices: call MatrixBase::operator+=(idx($[<OUT>], tup(col, (elem(_vertexIndices)))), *<IN>*iv*)
    """))
    ctx.spec(R, fn(NN + 'mapConsistentAt'), """
        for [0, MapBase::cols(arg0)): store lv(idx($[arg2], tup(col, (iv)))) = DenseBase::col(Map(PlainObjectBase::data(arg1.inData.sample.values), MappingDataCache::getDataDimensions(arg1), *, Stride()), Index::getClosestVertex(_input._index, *DenseBase::col(arg0, iv)*).index)
    """)
    ctx.spec(R, fn(NN + 'mapConservativeAt'), """
        for [0, MapBase::cols(arg0)): call MatrixBase::operator+=(idx($[arg3], tup(col, (Index::getClosestVertex(_output._index, *DenseBase::col(arg0, iv)*).index))), idx($[arg1], tup(col, (iv))))
    """)
    ctx.spec(R, fn(NG + 'onMappingComputed'), """
        Z) call vector::resize(_offsetsMatched, size(_vertexIndices))
        A) for _vertexIndices: store NearestNeighborBaseMapping::_offsetsMatched(idx(_offsetsMatched, iv)) = -1*Vertex::getCoords(Mesh::vertex(arg1, elem(_vertexIndices)))+Vertex::getCoords(Mesh::vertex(arg0, iv))
        order Z < A
    """)
    V = 'arg0.dataDims*idx(_vertexIndices, iv1)+iv'
    ctx.spec(R, fn(NG + 'mapConsistent'), """
        for [0, Mesh::nVertices(_output)) >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*iv1+iv)) = DenseBase::transpose(idx(_offsetsMatched, iv1))*idx(arg0.gradients, tup(col, (<V>)))+idx(arg0.values, <V>) || for [0, Mesh::nVertices(_output)) >> [0, arg0.dataDims): store par(idx(arg1, arg0.dataDims*iv1+iv)) = MatrixBase::dot(idx(_offsetsMatched, iv1), idx(arg0.gradients, tup(col, (<V>))))+idx(arg0.values, <V>)
    """.replace('<V>', V))
    # the API hands the derivatives of all components in the first direction first; the mapping has to use those of one component in all directions
    doc = re.sub(r'\s+', '', open(os.path.join(facts.REPO, 'src/precice/Participant.hpp')).read())
    by_direction = 'xdx,ydx' in doc and 'x0dx|y0dx' in doc
    w = fn('precice::impl::WriteDataContext::writeGradientsIntoDataBuffer')
    swapped = [e for e in w.events if e.kind in ('call', 'store') and 'transpose' in evtext(w, e)]
    f = fn(NG + 'mapConsistent')
    cols = [e for e in f.events if e.kind == 'store' and 'tup(col, (arg0.dataDims*' in f.n(e.val)]
    ctx.ob('gradient layout', 'gradients of vector data are read in the documented order', not (by_direction and cols and not swapped), cols[0].loc if cols else '',
           'documented are the derivatives of all components by direction (x dx, y dx, ...), but a column with the derivatives of one direction is used as the gradient of one component')
    for q, to, fro in (('mapConsistent', 'out', 'in'), ('mapConservative', 'in', 'out')):
        t = """
            for _operations: store par(idx(arg1, <O>.TO)) = <O>.weight*idx(arg0.values, <O>.FROM)+idx(arg1, <O>.TO) | {(arg0.dataDims == 1)}
        """
        for d in (2, 3):
            t += """
            for _operations: call NoAlias::operator+=(idx(idx($[arg1], tup(segment, (%d*<O>.TO, %d))), tup(noalias, ())), <O>.weight*idx(arg0.values, tup(segment, (%d*<O>.FROM, %d)))) | {(arg0.dataDims == %d)} || for _operations: call MatrixBase::operator+=(idx($[arg1], tup(segment, (%d*<O>.TO, %d))), <O>.weight*idx(arg0.values, tup(segment, (%d*<O>.FROM, %d)))) | {(arg0.dataDims == %d)}
            """ % (d, d, d, d, d, d, d, d, d, d)
        t += 'throws | !{(arg0.dataDims == 1)} & !{(arg0.dataDims == 2)} & !{(arg0.dataDims == 3)}\n'
        ctx.spec(R, fn(BB + q), t.replace('<O>', 'elem(_operations)').replace('TO', to).replace('FROM', fro))


def tags(ctx):
    """every vertex a mapping will use is tagged, so that filtering and ownership keep it"""
    R = 'tags'
    pol = lambda A, F, D: (D.n in ('hasConstraint', 'isScaledConsistent') or ctx.policy(A, F, D)) and D.n not in ('computeMapping', 'clear', 'isJustInTimeMapping')
    B_ = 'precice::mapping::RadialBasisFctBaseMapping::'
    for con, org, oth in ((CONS, '_output', '_input'), ('!' + CONS, '_input', '_output')):
        rep = lambda s: s.replace('<F>', org).replace('<O>', oth)
        FLAG = 'idx($[vector(Mesh::nVertices(<F>), 0*)], %s)'
        g = ctx.fn(BB + 'tagMeshFirstRound', policy=pol).given(con)
        if any(e.kind == 'store' and 'vector(Mesh::nVertices' in evtext(g, e) for e in g.events):
            ctx.spec(R, g, rep("""
            C) call Mapping::computeMapping(this())
            S) for _operations: store lv(%s) = 1
            T) for [0, Mesh::nVertices(<F>)): call Vertex::tag(*iv)) | {*%s*}
            order C < S < T
        """ % (FLAG % 'elem(_operations).in', FLAG % 'iv')))
        else:       # tagged directly
            ctx.spec(R, g, rep("""
                C) call Mapping::computeMapping(this())
                T) for _operations: call Vertex::tag(Mesh::vertex(*, elem(_operations).in))
                order C < T
            """))
        JIT = '{Mapping::isJustInTimeMapping(this())}'
        ctx.spec(R, ctx.fn(NB + 'tagMeshFirstRound', policy=pol).given(con), rep("""
            C) call NearestNeighborBaseMapping::computeMapping(this()) | !JIT
            T) for <F>._vertices: call Vertex::tag(elem(<F>._vertices)) | !JIT & {contains(*(begin(_vertexIndices), end(_vertexIndices)), elem(<F>._vertices)._id)}
            call Mesh::tagAll(_output) | JIT
            call Mesh::tagAll(_input) | JIT
            order C < T
        """).replace('JIT', JIT))
        CS, E = '{*::hasCompactSupport(*)}', '{Mesh::empty(%s)}' % oth
        n = 0
        for F in ctx.funcs(B_ + 'tagMeshFirstRound'):
            n += 1
            ctx.spec(R, ctx.analyse(F, policy=pol).given(con), rep("""
                X) call BoundingBox::expandBy(<O>._boundingBox, *upportRadius*) | CS & !EMP
                T) for <F>._vertices: call Vertex::tag(elem(<F>._vertices)) | CS & !EMP & {BoundingBox::contains(<O>._boundingBox*, elem(<F>._vertices))}
                call Mesh::tagAll(<F>) | !CS & !EMP
                order X < T
            """).replace('CS', CS).replace('EMP', E))
        ctx.need('tags of radial-basis mappings', n, 3)
        n = 0
        for F in ctx.funcs(B_ + 'tagMeshSecondRound'):
            n += 1
            ctx.spec(R, ctx.analyse(F, policy=pol).given(con), rep("""
                O) for <F>._vertices: call BoundingBox::expandBy(phi, elem(<F>._vertices)) | CS & {elem(<F>._vertices)._owner}
                X) call BoundingBox::expandBy(lout(BoundingBox(*), phi), *upportRadius*) | CS
                T) for Index::getVerticesInsideBox(<F>._index, lout(BoundingBox(*), phi)*): call Vertex::tag(Mesh::vertex(*, elem(Index::getVerticesInsideBox(<F>._index, *)))) | CS
                order O < X < T
            """).replace('CS', CS))
        ctx.need('second tags of radial-basis mappings', n, 3)


def basis(ctx):
    """every radial basis function is the documented function of the radius and its parameter; compact ones vanish from the support radius on"""
    R = 'basis functions'
    r, q = Rat.sym('r'), Rat.sym('q')
    log = lambda x: fun('log', x)
    K = 'precice::mapping::'
    SH, SUP, NOPAR = 'shape', 'support', None
    TAB = {     # function of the radius and parameter1; what parameter1 is made of
        'ThinPlateSplines': (lambda p: r ** 2 * log(r), None),
        'VolumeSplines': (lambda p: fun('abs', r), None),
        'Multiquadrics': (lambda p: fun('sqrt', p + r ** 2), lambda c: c ** 2),
        'InverseMultiquadrics': (lambda p: 1 / fun('sqrt', p + r ** 2), lambda c: c ** 2),
        'Gaussian': (lambda p: fun('exp', -(p * r) ** 2) - Rat.sym('delta'), lambda c: c),
        'CompactThinPlateSplinesC2': (lambda p: 1 - 30 * (p * r) ** 2 - 10 * (p * r) ** 3 + 45 * (p * r) ** 4 - 6 * (p * r) ** 5 - 60 * (p * r) ** 3 * log(p * r), lambda c: 1 / c),
        'CompactPolynomialC0': (lambda p: (1 - p * r) ** 2, lambda c: 1 / c),
        'CompactPolynomialC2': (lambda p: (1 - p * r) ** 4 * (4 * p * r + 1), lambda c: 1 / c),
        'CompactPolynomialC4': (lambda p: (1 - p * r) ** 6 * (35 * (p * r) ** 2 + 18 * p * r + 3), lambda c: 1 / c),
        'CompactPolynomialC6': (lambda p: (1 - p * r) ** 8 * (32 * (p * r) ** 3 + 25 * (p * r) ** 2 + 8 * p * r + 1), lambda c: 1 / c),
        'CompactPolynomialC8': (lambda p: (1 - p * r) ** 10 * (1287 * (p * r) ** 4 + 1350 * (p * r) ** 3 + 630 * (p * r) ** 2 + 150 * p * r + 15), lambda c: 1 / c),
    }
    for cls, (want, par) in TAB.items():
        f = ctx.fn(K + cls + '::evaluate')

        def env(t):
            if t.k == 'par':
                return r
            if t.k == 'fld' and t.a[2].endswith('RadialBasisParameters::parameter1'):
                return q
            if t.k == 'fld' and t.a[2].endswith('RadialBasisParameters::parameter3'):
                return Rat.sym('delta')
            if t.k == 'call' and t.a[1] == 'std::max':      # keeps the argument of the logarithm above zero
                l = [x for x in t.a[2] if not (x.k == 'flt' and float(x.a[1]) <= 1e-10)]
                return ev(l[0]) if len(l) == 1 else None
            return None
        ev = Eval(env)
        n, det = 0, ''
        for e in f.rets():
            try:
                got = ev(e.val)
                if got.number() == 0:
                    continue
                n += 1
                if not same(got, want(q)):
                    det = 'value is %s' % f.n(e.val)
            except Unsupported as x:
                det = 'not understood: %s' % x
        ctx.ob(R, '%s: value' % f.name, n and not det, '%s:%d' % (f.F.file, f.F.line), det or 'no value')
        if cls.startswith('Compact'):
            ctx.spec(R, f, 'ret return() = 0 | !{(_params.parameter1*arg0 < 1)}')
        elif cls == 'Gaussian':
            ctx.spec(R, f, 'ret return() = 0 | {(_params.parameter2 < arg0)}')
        else:
            ctx.ob(R, '%s: support everywhere' % f.name, len(f.rets()) == n, '%s:%d' % (f.F.file, f.F.line), 'vanishes for some radii')
        if par is None:
            continue
        c = ctx.fn(K + cls + '::' + cls)
        e2 = Eval(lambda t: Rat.sym('c') if t.k == 'par' and t.a[1] == 0 else None)
        st = [e for e in c.events if e.kind == 'store' and e.q.endswith('RadialBasisParameters::parameter1')]
        det = '' if st else 'not set'
        for e in st:
            try:
                if not same(e2(e.val), par(Rat.sym('c'))):
                    det = 'is %s' % c.n(e.val)
            except Unsupported as x:
                det = 'not understood: %s' % x
        ctx.ob(R, '%s: parameter of the function' % c.name, not det, '%s:%d' % (c.F.file, c.F.line), det)
        if cls.startswith('Compact'):
            ctx.spec(R, c, 'throws | !{math::greater(arg0, 0, 1e-14)}')
            g = ctx.fn(K + cls + '::getSupportRadius')
            inv = [e for e in c.events if e.kind == 'store' and e.q.endswith('::_r_inv')]
            det = ''
            try:
                e3 = Eval(lambda t: e2(inv[0].val) if t.k == 'fld' and t.a[2].endswith('::_r_inv') and len(inv) == 1 else par(Rat.sym('c')) if t.k == 'fld' and t.a[2].endswith('::parameter1') else None)
                if not all(same(e3(e.val), Rat.sym('c')) for e in g.rets()):
                    det = 'is not the radius given'
            except Unsupported as x:
                det = 'not understood: %s' % x
            ctx.ob(R, '%s: support radius' % g.name, not det, '%s:%d' % (g.F.file, g.F.line), det)
    f = ctx.fn(K + 'Gaussian::Gaussian')
    RAD = 'std::min((sqrt(-1*log(1e-09)) / arg0), arg1)'
    ctx.spec(R, f, """
        some store Gaussian::_supportRadius(_supportRadius) = <R>
        final _params.parameter2 = <R>
        some store RadialBasisParameters::parameter3(*) = exp(-1*math::pow_int[2](arg0*arg1)) | !{(<R> < arg1)} & {(arg1 < numeric_limits::infinity())}
        throws | !{math::greater(arg0, 0, 1e-14)} | !{math::greater(arg1, 0, 1e-14)}
    """.replace('<R>', RAD).replace('        final _params.parameter2', '        some store RadialBasisParameters::parameter2(*)'))
    ctx.spec(R, K + 'Gaussian::getSupportRadius', 'ret return() = _supportRadius')


def run(ctx):
    barycentric(ctx)
    polation(ctx)
    search(ctx)
    methods(ctx)
    tags(ctx)
    basis(ctx)
