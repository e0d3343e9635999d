"""Geometry of edges, triangles and tetrahedra (compared with its definition as rational functions), implied lower-dimensional elements, identity of
elements, contents of a mesh, integrals, and agreement of the search index with the mesh."""
from check import *
from api import *
from algebra import *

MIN = 100
M = 'precice::mesh::'
ME = M + 'Mesh::'


def run(ctx):
    geometry(ctx)
    vertices(ctx)
    identity(ctx)
    implied(ctx)
    contents(ctx)
    integrals(ctx)
    coherence(ctx)


def corner(f, t):
    """index of the corner of the element (this, or the first argument)"""
    m = re.match(r'(?:idx\(_vertices, (\d)\)|\w+::vertex\((?:this\(\)|arg0), (\d)\))$', f.n(t))
    return int(m[1] or m[2]) if m else None


def value(ctx, rule, f, want, env, what, under=None):
    """the returned value is the wanted one, for every return"""
    g = f.given(under) if under else f
    det = '' if g.rets() else 'no value returned'
    for e in g.rets():
        try:
            got = Eval(env)(e.val)
            if not same(got, want):
                det = det or 'value is %s' % str(got)[:300]
        except Unsupported as x:
            det = det or 'not understood: %s' % x
    ctx.ob(rule, '%s: %s' % (f.name, what), not det, '%s:%d' % (f.F.file, f.F.line), det)


def geometry(ctx):
    R = 'geometry'

    def env(f, v, extra=None):
        def leaf(t):
            if t.k == 'call' and t.a[1].endswith('Vertex::getCoords'):
                i = corner(f, t.a[2][0])
                return v[i] if i is not None and i < len(v) else None
            if t.k == 'call' and t.a[1] in (M + 'Edge::getCenter', M + 'Triangle::getCenter', M + 'Tetrahedron::getCenter') and f.n(t.a[2][0]) == 'this()':
                return centre(v)
            if t.k == 'call' and t.a[1] == M + 'edgeLength':
                return None
            if t.k == 'call' and t.a[1] == 'precice::math::geometry::triangleArea':
                return area([Eval(leaf)(x) for x in t.a[2]])
            if t.k == 'call' and t.a[1] == 'precice::math::geometry::tetraVolume':
                return volume([Eval(leaf)(x) for x in t.a[2]])
            if t.k == 'call' and t.a[1].endswith('::normalized') and len(t.a[2]) == 1:
                return direction(Eval(leaf)(t.a[2][0]))
            if t.k == 'call' and t.a[1].rsplit('::', 1)[-1] == 'max':
                l = [Eval(leaf)(x) for x in flat(t.a[2])]
                return fun('max', sorted(l, key=str))
            return extra(t) if extra else None
        return leaf

    def flat(l):
        for x in l:
            if x.k == 'init':
                yield from flat(x.a[2])
            else:
                yield x

    def centre(v):
        n = Rat.const(len(v))
        s = v[0]
        for w in v[1:]:
            s = add(s, w)
        return [x / n for x in s]

    def area(v):
        half = Rat.const(1) / 2
        a, b = sub(v[1], v[0]), sub(v[2], v[0])
        return half * fun('abs', det2(a, b)) if len(a) == 2 else half * fun('norm', cross(a, b))

    def volume(v):
        return fun('abs', dot(sub(v[1], v[0]), cross(sub(v[2], v[0]), sub(v[3], v[0])))) / 6

    def direction(n):
        """a direction, up to a positive or negative factor"""
        p = next((x for x in n if x != Rat.const(0)), None)
        return [x / p for x in n] if p is not None else n

    radius = lambda v: fun('max', sorted([fun('norm', sub(x, centre(v))) for x in v], key=str)) if len(v) > 2 else fun('norm', sub(v[0], centre(v)))
    normal = lambda v: direction(cross(sub(v[1], v[0]), sub(v[2], v[0])))
    length = lambda v: fun('norm', sub(v[1], v[0]))
    pts = lambda n, d: [vec('abcd'[i], d) for i in range(n)]
    for name, n, dims, what, want in (
            ('Edge::getLength', 2, (2, 3), 'distance of its vertices', length), ('edgeLength', 2, (2, 3), 'distance of its vertices', length),
            ('Edge::getCenter', 2, (2, 3), 'midpoint', centre), ('Edge::getEnclosingRadius', 2, (2, 3), 'half the length', radius),
            ('Triangle::getArea', 3, (2, 3), 'area', area), ('Triangle::computeNormal', 3, (3,), 'orthogonal to two edges', normal),
            ('Triangle::getCenter', 3, (2, 3), 'centroid', centre), ('Triangle::getEnclosingRadius', 3, (2, 3), 'largest distance of a vertex to the centre', radius),
            ('Tetrahedron::getVolume', 4, (3,), 'volume', volume), ('Tetrahedron::getCenter', 4, (3,), 'centroid', centre),
            ('Tetrahedron::getEnclosingRadius', 4, (3,), 'largest distance of a vertex to the centre', radius)):
        keep = lambda A, F, D: ctx.policy(A, F, D) and not D.q.startswith('precice::math::')
        f = ctx.fn(M + name, policy=keep)
        for d in dims:
            v = pts(n, d)
            value(ctx, R, f, want(v), env(f, v), '%s in %d dimensions' % (what, d), dim(f, d))
    for name, n, dims, want in (('triangleArea', 3, (2, 3), area), ('tetraVolume', 4, (3,), volume)):
        f = ctx.fn('precice::math::geometry::' + name)
        for d in dims:
            v = pts(n, d)
            value(ctx, R, f, want(v), lambda t: v[t.a[1]] if t.k == 'par' else None, '%s in %d dimensions' % ('area' if n == 3 else 'volume', d), dim(f, d))
    lo, hi = Rat.sym('lo'), Rat.sym('hi')
    box = lambda t: lo if t.k == 'fld' and str(t.a[-1]).endswith('_boundMin') else hi if t.k == 'fld' and str(t.a[-1]).endswith('_boundMax') else None

    def comp(f, i):
        def leaf(t):
            s = f.n(t)
            return {'idx(_boundMin, %s)' % i: lo, 'idx(_boundMax, %s)' % i: hi, '_boundMin': lo, '_boundMax': hi}.get(s)
        return leaf
    f = ctx.fn(M + 'BoundingBox::center')
    value(ctx, R, f, (lo + hi) / 2, comp(f, 0), 'midpoint of the box')
    f = ctx.fn(M + 'BoundingBox::getEdgeLength')
    det = []
    for e in f.rets():
        try:
            got = Eval(comp(f, 'arg0'))(e.val)
            if not (same(got, hi - lo) or same(got, fun('abs', hi - lo))):
                det.append(str(got))
        except Unsupported as x:
            det.append('not understood: %s' % x)
    ctx.ob(R, 'BoundingBox::getEdgeLength: extent along the axis', bool(f.rets()) and not det, '%s:%d' % (f.F.file, f.F.line), '; '.join(det)[:300])


def dim(f, d):
    l = []
    for a in f.atoms(r'*'):
        s = f.n.atom(f.A.B.atoms[a] if isinstance(a, int) else a)
        m = re.match(r'\((?:size\(arg\d\)|\w+::getDimensions\([^()]*(?:\([^()]*\))?[^()]*\)|.*_dim) == (\d)\)$', s)
        if m:
            l.append(('' if int(m[1]) == d else '!') + '{' + s + '}')
    return ' & '.join(sorted(set(l))) or None


def vertices(ctx):
    """a vertex keeps its coordinates, ID and attributes"""
    R = 'vertices'
    for F in ctx.funcs(M + 'Vertex::Vertex'):
        if len(F.params) != 2:
            continue
        ctx.spec(R, ctx.analyse(F), """
            final _dim = size(arg0)
            final _id = arg1
            final _globalIndex = -1
            final _owner = 1
            final _tagged = 0
            when call std::copy_n(begin(arg0), size(arg0), *_coords*) || when call std::copy_n(begin(arg0), size(arg0), *array()*) || when call std::copy_n(begin(arg0), _dim, *)
        """)
    for F in ctx.funcs(M + 'Vertex::setCoords'):
        ctx.spec(R, ctx.analyse(F), 'when call std::copy_n(begin(arg0), _dim, *_coords*)')
    ctx.spec(R, M + 'Vertex::getCoords', """
        when call std::copy_n(*_coords*, _dim, *)
        ret return() = VectorXd(_dim)
    """)
    for n, v in (('getID', '_id'), ('getGlobalIndex', '_globalIndex'), ('isOwner', '_owner'), ('isTagged', '_tagged'), ('getDimensions', '_dim'), ('rawCoords', '_coords')):
        ctx.spec(R, M + 'Vertex::' + n, 'ret return() = ' + v)
    ctx.spec(R, M + 'Vertex::coord', 'ret return() = idx(_coords, arg0)')
    for n, v, a in (('setGlobalIndex', '_globalIndex', 'arg0'), ('setOwner', '_owner', 'arg0'), ('tag', '_tagged', '1')):
        ctx.spec(R, M + 'Vertex::' + n, 'final %s = %s' % (v, a))
    ctx.spec(R, M + 'Vertex::operator==', 'returns | {math::equals(VectorXd(_dim), VectorXd(arg0._dim), *)}')
    ctx.spec(R, M + 'Vertex::operator<', 'returns | {(_id < arg0._id)}')


KINDS = (('Edge', 2), ('Triangle', 3), ('Tetrahedron', 4))


def identity(ctx):
    """the same vertices in any order are the same element; the order is the one of the sorted vertex IDs"""
    R = 'identity of elements'
    for c, n in KINDS:
        f = ctx.fn(M + c + '::operator==')
        v = [f.n(e.val) for e in f.rets()]
        ok = bool(v) and all(re.match(r'<?std::is_permutation\(begin\(_vertices\), end\(_vertices\), begin\(arg0\._vertices\)(, end\(arg0\._vertices\))?(, lambda\{(Vertex::operator==\((p0, p1|p1, p0)\)|<?\(p[01](\._id)? == p[01](\._id)?\)>?)\})?\)>?$', x) for x in v)
        ctx.ob(R, '%s: same vertices in any order' % f.name, ok, '%s:%d' % (f.F.file, f.F.line), '; '.join(v)[:300])
        f = ctx.fn(M + c + '::operator<')
        tup = lambda p: 'tuple(%s)' % ', '.join('idx(%s_vertices, %d)._id' % (p, i) for i in range(n))
        ctx.spec(R, f, 'returns | {(%s < %s)}' % (tup(''), tup('arg0.')))
        for F in ctx.funcs(M + c + '::vertex'):
            ctx.spec(R, ctx.analyse(F), 'ret return() = idx(_vertices, arg0)')
        for F in ctx.funcs(M + c + '::' + c):
            if len(F.params) != n or not all('Vertex' in p.t for p in F.params):
                continue
            f = ctx.analyse(F)
            loc = '%s:%d' % (F.file, F.line)
            st = [e for e in f.events if e.kind == 'store' and e.q == M + c + '::_vertices']
            first = [f.n(e.val) for e in st]
            ok = any(re.search(r'\(' + ', '.join('arg%d' % i for i in range(n)) + r'\)', s) for s in first)
            ctx.ob(R, '%s: all given vertices, once each' % f.name, ok, loc, '; '.join(first)[:300])
            if n == 2:
                LESS = 'Vertex::operator<(idx(_vertices, 1), idx(_vertices, 0))'
                swap = [e for e in st if f.n.gate(e.g) == LESS or f.n.gate(e.g) == '(idx(_vertices, 1)._id < idx(_vertices, 0)._id)']
                byarg = [e for e in st if re.search(r'operator<\(arg[01], arg[01]\)', f.n.gate(e.g))]
                ok = len(swap) == 2 or bool(byarg) or bool(f.call('std::sort'))
            else:
                so = f.call('std::sort')
                ok = len(so) == 1 and so[0].g == f.A.B.T and bool(st) and f.n(so[0].args[0]) in ('begin(%s)' % x for x in first + ['_vertices']) and len(so[0].args) == 3 \
                    and re.match(r'lambda\{(Vertex::operator<\(p0, p1\)|<?\(?p0\._id < p1\._id\)?>?)\}$', f.n(so[0].args[2])) is not None
            ctx.ob(R, '%s: vertices sorted by ID' % f.name, ok, loc, '')
    f = ctx.fn(M + 'Edge::connectedTo')
    EQ = lambda i, j: '{(idx(_vertices, %d) == idx(arg0._vertices, %d))}' % (i, j)
    ctx.spec(R, f, 'returns | ' + ' | '.join(EQ(i, j) for i in (0, 1) for j in (0, 1)))
    f = next(ctx.analyse(F) for F in ctx.funcs(M + 'Triangle::Triangle') if all('Edge' in p.t for p in F.params))
    E = lambda a, b, c, d: '{Vertex::operator==(Edge::vertex(arg%d, %d), Edge::vertex(arg%d, %d))}' % (a, b, c, d)
    ctx.spec(R, f, """
        bind TH = store Triangle::_vertices(_vertices) = init(*, (*(*Edge::vertex(arg0, 0), Edge::vertex(arg0, 1), <THIRD>)*))
        throws | !A & !B & !C & !D
    """.replace('bind TH = store Triangle::_vertices(_vertices) = init(*, (*(*Edge::vertex(arg0, 0), Edge::vertex(arg0, 1), <THIRD>)*))\n', '')
             .replace('!A', '!' + E(0, 0, 1, 0)).replace('!B', '!' + E(0, 0, 1, 1)).replace('!C', '!' + E(0, 1, 1, 0)).replace('!D', '!' + E(0, 1, 1, 1)))
    # the third vertex is the end of the second edge which is not shared with the first
    shared0 = E(0, 0, 1, 0) + ' | ' + E(0, 1, 1, 0)
    for cond, want in (('(%s)' % shared0, 1), ('!%s & !%s & (%s | %s)' % (E(0, 0, 1, 0), E(0, 1, 1, 0), E(0, 0, 1, 1), E(0, 1, 1, 1)), 0)):
        g = f.given(cond)
        st = [g.n(e.val) for e in g.events if e.kind == 'store' and e.q == M + 'Triangle::_vertices' and 'Edge::vertex' in g.n(e.val)]
        ok = bool(st) and re.search(r'\(Edge::vertex\(arg0, 0\), Edge::vertex\(arg0, 1\), Edge::vertex\(arg1, %d\)\)' % want, st[-1]) is not None
        ctx.ob(R, 'Triangle(Edge, Edge, Edge): third vertex is vertex %d of the second edge if vertex %d is shared' % (want, 1 - want), ok, '%s:%d' % (f.F.file, f.F.line), '; '.join(st)[:300])
    f = ctx.fn(M + 'sharedVertex')
    P = lambda i, j: '{(Edge::vertex(arg0, %d) == Edge::vertex(arg1, %d))}' % (i, j)
    H0, H1 = '(%s | %s)' % (P(0, 0), P(0, 1)), '(%s | %s)' % (P(1, 0), P(1, 1))
    ctx.spec(R, f, """
        ret return() = Edge::vertex(arg0, 0) | H0
        ret return() = Edge::vertex(arg0, 1) | N0 & H1
        ret return() = null() | N0 & N1
    """.replace('N0', '!%s & !%s' % (P(0, 0), P(0, 1))).replace('N1', '!%s & !%s' % (P(1, 0), P(1, 1))).replace('H0', H0).replace('H1', H1))


def implied(ctx):
    """duplicates are removed; every face of a tetrahedron and every side of a triangle exists, once"""
    R = 'implied elements'
    f = ctx.fn(ME + 'removeDuplicates', policy=lambda A, F, D: ctx.policy(A, F, D))
    for fld in ('_tetrahedra', '_triangles', '_edges'):
        st = [e for e in f.events if e.kind == 'store' and e.q == ME + fld]
        er = [e for e in f.events if e.kind == 'call' and e.q.endswith('::erase') and f.n(e.args[0]).startswith(fld)]
        S = fld + '~sort()'
        ok = len(st) == 1 and not er and re.match(r'\w+\(begin\(S\), std::unique\(begin\(S\), end\(S\)\)'.replace('S', re.escape(S)), f.n(st[0].val)) and st[0].g == f.A.B.T \
            or len(er) == 1 and not st and er[0].g == f.A.B.T and len(er[0].args) == 3 \
            and re.match(r'(\w+\()?std::unique\(begin\(S\), end\(S\)\)\)?$'.replace('S', re.escape(S)), f.n(er[0].args[1])) and re.match(r'(\w+\()?end\(%s\)\)?$' % re.escape(S), f.n(er[0].args[2]))
        ctx.ob(R, 'removeDuplicates: adjacent equal elements of the sorted %s are removed' % fld[1:], bool(ok), st[0].loc if st else '', '; '.join(f.n(e.val) for e in st)[:300])
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('createTriangle', 'createEdge')
    f = ctx.analyse(ctx.funcs(ME + 'generateImplictPrimitives')[0], policy=keep)
    loc = '%s:%d' % (f.F.file, f.F.line)
    MISS = '(!{(size(_triangles) == 0)} | !{(size(_tetrahedra) == 0)})'
    B = f.A.B
    last = {}
    for cls, n, create, rng, fillrng in (('Tetrahedron', 4, 'createTriangle', '_tetrahedra', '_triangles'), ('Triangle', 3, 'createEdge', '_triangles', '_edges')):
        key = r'std::tuple_cat\(init\(std::array<Vertex \*, (?:\w+::vertexCount|\d)>, \(init\([^()]*, \((%s)\)\)\)\)~sort\(\)\)' % ', '.join(r'%s::vertex\(elem\(%s\), %d\)' % (cls, rng, i) for i in range(n))
        fkey = key.replace(cls, fillrng and {'_triangles': 'Triangle', '_edges': 'Edge'}[fillrng])
        kn = n - 1

        def index(t):
            s = f.n(t)
            m = re.match(r'(.*)\.(first|second|b(\d))$', s)
            if m and re.match(key + '$', m[1]):
                return {'first': 0, 'second': 1}.get(m[2], int(m[3] or 0))
            m = re.match(r'std::get\[(\d)\]\((.*)\)$', s)
            return int(m[1]) if m and re.match(key + '$', m[2]) else None
        made, det = [], []
        for e in f.call('Mesh::' + create):
            if [f.rng(L) for L in e.loops] != [rng]:
                det.append('%s: created over %s' % (e.loc, [f.rng(L) for L in e.loops]))
                continue
            ix = [index(a) for a in e.args[1:]]
            if None in ix or ix != sorted(set(ix)):
                det.append('%s: corners %s' % (e.loc, [f.n(a)[-60:] for a in e.args[1:]]))
                continue
            made.append(tuple(ix))
            ins = [x for x in f.events if x.kind == 'call' and x.q.rsplit('::', 1)[-1] in ('emplace', 'insert') and [index(a) for a in x.args[1:]] == ix and x.loops and x.loops[-1] is e.loops[-1]]
            ks = ', '.join(f.n(a) for a in e.args[1:])
            absent = [a for a in f.atoms('*') if re.match(r'contains\(phi, \w+\(' + re.escape(ks) + r'\)\)$', f.n.atom(B.atoms[a] if isinstance(a, int) else a))]
            if len(absent) != 1 or not B.implies(e.g, f.cond('!{contains(phi, *(%s))}' % ks)) or not B.implies(f.cond('!{contains(phi, *(%s))}' % ks + ' & ' + MISS), e.g):
                det.append('%s: not created exactly if missing (%s)' % (e.loc, f.n.gate(e.g)[-160:]))
            if len(ins) != 1 or ins[0].g != e.g:
                det.append('%s: not recorded as existing' % e.loc)
            last.setdefault(create, []).append(e.seq)
        want = set()
        for i in range(n):
            want.add(tuple(j for j in range(n) if j != i)) if n == 4 else want.update({tuple(sorted((i, j))) for j in range(n) if j != i})
        if sorted(made) != sorted(want):
            det.append('corners %s of %s' % (sorted(made), sorted(want)))
        ctx.ob(R, 'generateImplictPrimitives: %s for every %s of a %s unless it exists' % (create, {4: 'face', 3: 'side'}[n], cls.lower()), not det, loc, '; '.join(det)[:400])
        fill = [e for e in f.events if e.kind == 'call' and e.q.startswith('std::set<') and e.q.rsplit('::', 1)[-1] in ('emplace', 'insert') and [f.rng(L) for L in e.loops] == [fillrng]
                and len(e.args) == 2 and re.search(r'tuple_cat\(init\(std::array<Vertex \*', f.n(e.args[1])) and '%s::vertex(elem(%s), %d)' % ({3: 'Triangle', 2: 'Edge'}[kn], fillrng, kn - 1) in f.n(e.args[1])]
        ok = len(fill) == 1 and bool(last.get(create)) and fill[0].seq < min(last[create])
        ctx.ob(R, 'generateImplictPrimitives: all existing %s are known before' % fillrng[1:], ok, fill[0].loc if fill else loc, '%d sets filled' % len(fill))
    ok = bool(last.get('createEdge')) and bool(last.get('createTriangle')) and max(last['createTriangle']) < min(last['createEdge'])
    ctx.ob(R, 'generateImplictPrimitives: sides of the implied triangles are implied too', ok, loc, '')
    ctx.spec(R, ctx.analyse(ctx.funcs(ME + 'preprocess')[0], policy=lambda A, F, D: ctx.policy(A, F, D) and D.n not in ('removeDuplicates', 'generateImplictPrimitives')), """
        DUP) call Mesh::removeDuplicates(this())
        IMP) call Mesh::generateImplictPrimitives(this())
        order DUP < IMP
    """)


def contents(ctx):
    """what is created is stored, numbered and found again"""
    R = 'contents'
    a = lambda n: ', '.join('arg%d' % i for i in range(n))
    fn = lambda name, n: next(ctx.analyse(F) for F in ctx.funcs(ME + name) if len(F.params) == n and (name == 'createVertex' or all('Vertex' in p.t for p in F.params)))
    for name, n, fld, args in (('createVertex', 1, '_vertices', 'arg0, size(_vertices)'), ('createEdge', 2, '_edges', a(2)), ('createTriangle', 3, '_triangles', a(3)), ('createTetrahedron', 4, '_tetrahedra', a(4))):
        ctx.spec(R, fn(name, n), """
            call *::emplace_back(FLD, ARGS)
            ret return() = *::back(FLD~emplace_back(ARGS))
        """.replace('FLD', fld).replace('ARGS', args))
    f = next(ctx.analyse(F) for F in ctx.funcs(ME + 'createTriangle') if all('Edge' in p.t for p in F.params))
    ctx.spec(R, f, 'call *::emplace_back(_triangles, arg0, arg1, arg2)')
    for F in ctx.funcs(ME + 'createData'):
        f = ctx.analyse(F)
        b = 'arg4, arg5' if len(F.params) == 6 else '*'
        ctx.spec(R, f, """
            new Data(arg0, arg2, arg1, _dimensions, arg3, BOUNDS)
            call vector::push_back(_data, PtrData(new(Data, (arg0, arg2, arg1, _dimensions, arg3, BOUNDS)*)))
            throws | {any(_data: (arg0 == elem(_data)._name))}
        """.replace('BOUNDS', b))
    for F in ctx.funcs(M + 'Data::Data'):
        if len(F.params) < 5:
            continue
        ctx.spec(R, ctx.analyse(F), """
            final _name = arg0
            final _id = arg1
            final _dimensions = arg2
            final _spatialDimensions = arg3
            store Data::_waveform(_waveform) = Waveform(arg4)
            store Data::_sample(_sample) = Sample(arg2)
            final _hasGradient = 0
        """ + ('final _lowerBound = arg5\n            final _upperBound = arg6' if len(F.params) == 7 else ''))
    ctx.spec(R, ME + 'hasDataID', 'returns | {any(_data: (arg0 == elem(_data)._id))}')
    ctx.spec(R, ME + 'hasDataName', 'returns | {any(_data: (arg0 == elem(_data)._name))}')
    for F in ctx.funcs(ME + 'data'):
        if len(F.params) == 1:
            ctx.spec(R, ctx.analyse(F), 'ret return() = find_if(_data: (arg0 == elem(_data).%s))' % ('_id' if 'basic_string' not in F.params[0].t and 'string' not in F.params[0].t else '_name'))
        elif not F.params:
            ctx.spec(R, ctx.analyse(F), 'ret return() = _data')
    ctx.spec(R, ME + 'isValidVertexID', 'returns | !{(arg0 < 0)} & {(arg0 < size(_vertices))}')
    for name, fld in (('vertices', '_vertices'), ('edges', '_edges'), ('triangles', '_triangles'), ('tetrahedra', '_tetrahedra')):
        for F in ctx.funcs(ME + name):
            ctx.spec(R, ctx.analyse(F), 'ret return() = ' + fld)
    for F in ctx.funcs(ME + 'vertex'):
        ctx.spec(R, ctx.analyse(F), 'ret return() = idx(_vertices, arg0)')
    ctx.spec(R, ME + 'nVertices', 'ret return() = size(_vertices)')
    for name, v in (('getName', '_name'), ('getDimensions', '_dimensions'), ('getID', '_id'), ('isJustInTime', '_isJustInTime'), ('getBoundingBox', '_boundingBox')):
        ctx.spec(R, ME + name, 'ret return() = ' + v)
    ctx.spec(R, ME + 'hasConnectivity', 'returns | !{(size(_edges) == 0)} | !{(size(_triangles) == 0)} | !{(size(_tetrahedra) == 0)}')
    ctx.spec(R, ME + 'hasEdges', 'returns | !{(size(_edges) == 0)}')
    ctx.spec(R, ME + 'hasTriangles', 'returns | !{(size(_triangles) == 0)}')
    ctx.spec(R, ME + 'hasTetrahedra', 'returns | !{(size(_tetrahedra) == 0)}')
    ctx.spec(R, ME + 'allocateDataValues', 'for _data: call Data::allocateValues(elem(_data), size(_vertices))')
    N = '_dimensions*arg0'
    ctx.spec(R, M + 'Data::allocateValues', """
        SHR) call PlainObjectBase::resize(_sample.values, _dimensions*arg0) | {(0 < -1*_dimensions*arg0+size(_sample.values))}
        APP) call utils::append(*_sample.values*, VectorXd(DenseBase::Zero(-1*size(_sample.values)+_dimensions*arg0))) | {(-1*_dimensions*arg0+size(_sample.values) < 0)}
        call PlainObjectBase::resize(_sample.gradients, _spatialDimensions, _dimensions*arg0) | {(0 < -1*_dimensions*arg0+PlainObjectBase::cols(_sample.gradients))} & {_hasGradient}
        call utils::append(*_sample.gradients*, MatrixXd(DenseBase::Zero(_spatialDimensions, -1*PlainObjectBase::cols(_sample.gradients)+_dimensions*arg0))) | {(-1*_dimensions*arg0+PlainObjectBase::cols(_sample.gradients) < 0)} & {_hasGradient}
    """)
    ctx.spec(R, ME + 'computeBoundingBox', """
        for _vertices: call BoundingBox::expandBy(*, elem(_vertices))
        when call BoundingBox::operator=(_boundingBox, *)
    """)
    ctx.spec(R, ME + 'clear', """
        call *::clear(_vertices)
        call *::clear(_edges)
        call *::clear(_triangles)
        call *::clear(_tetrahedra)
        call Index::clear(_index)
        for _data: call Waveform::clear(elem(_data)._waveform)
        for _data: call PlainObjectBase::resize(Data::values(elem(_data)), 0)
    """)
    ctx.spec(R, ME + 'clearPartitioning', """
        call vector::clear(_connectedRanks)
        call map::clear(_communicationMap)
        call map::clear(_vertexDistribution)
        call vector::clear(_vertexOffsets)
        final _globalNumberOfVertices = 0
    """)
    SOME = '!{(size(_vertices) == 0)}'
    DIM = '(size(arg0) / size(_vertices))'
    ctx.spec(R, ME + 'getOwnedVertexData', """
        ret return() = VectorXd() | {(size(_vertices) == 0)}
        for _vertices >> [0, DIM): call vector::push_back(*, idx(arg0, DIM*iv1+iv)) | SOME & {elem(_vertices)._owner}
    """.replace('DIM', DIM).replace('SOME', SOME))
    ctx.spec(R, ME + 'tagAll', 'for _vertices: call Vertex::tag(elem(_vertices))')


def integrals(ctx):
    """every element contributes its measure times the mean of its corners, component by component"""
    R = 'integrals'
    size = '(size(arg1) / Mesh::nVertices(arg0))'
    for name, cases in (('integrateSurface', (('2', 'Edge', '_edges', 'getLength', 2), ('3', 'Triangle', '_triangles', 'getArea', 3))),
                        ('integrateVolume', (('2', 'Triangle', '_triangles', 'getArea', 3), ('3', 'Tetrahedron', '_tetrahedra', 'getVolume', 4)))):
        f = ctx.fn(M + name)
        for d, cls, rng, meas, n in cases:
            g = f.given(('' if d == '2' else '!') + '{(arg0._dimensions == 2)}')
            st = [e for e in g.events if e.kind == 'store' and e.loops]
            det = '' if len(st) == 1 else '%d sums' % len(st)
            for e in st[:1]:
                if len(e.loops) != 2 or f.rng(e.loops[0]) != 'arg0.' + rng or f.rng(e.loops[1]) != '[0, %s)' % size:
                    det = 'sum over %s' % [f.rng(L) for L in e.loops]
                    break
                m = Rat.sym('measure')
                acc = f.n(e.args[0]) if e.args else ''

                def leaf(t):
                    s = f.n(t)
                    if s == '%s::%s(elem(arg0.%s))' % (cls, meas, rng):
                        return m
                    r = re.match(re.escape('idx(arg1, %s*%s::vertex(elem(arg0.%s), ' % (size, cls, rng)) + r'(\d)\)._id\+iv\)$', s)
                    if r:
                        return Rat.sym('v' + r[1])
                    if t.k == 'idx' and s == acc.replace('lv(', '', 1)[:-1] if acc.startswith('lv(') else s == acc:
                        return Rat.sym('acc')
                    return None
                try:
                    got = Eval(leaf)(e.val)
                    want = Rat.sym('acc')
                    for i in range(n):
                        want = want + m / n * Rat.sym('v%d' % i)
                    if not same(got, want):
                        det = 'adds %s' % str(got)[:300]
                except Unsupported as x:
                    det = 'not understood: %s' % x
            ctx.ob(R, '%s in %s dimensions: sum over all %s' % (name, d, rng[1:]), not det, '%s:%d' % (f.F.file, f.F.line), det)


def coherence(ctx):
    """whoever removes or reorders elements of a mesh clears its search index"""
    R = 'search index'
    fields = tuple(ME + x for x in ('_vertices', '_edges', '_triangles', '_tetrahedra'))
    n = 0
    GROW = ('emplace_back', 'push_back')
    for u, F in sorted(ctx.P.funcs.items()):
        D = F.d
        if not (D.q or '').startswith(ME) or '/tests/' in (F.file or '') or D.n == 'Mesh':
            continue
        f = ctx.analyse(F)
        ch = [e for e in f.events if e.kind == 'store' and e.q in fields]
        for e in f.events:
            if e.kind == 'call' and e.args and e.q.startswith('std::') and f.n(e.args[0]) in ('_vertices', '_edges', '_triangles', '_tetrahedra') and e.q.rsplit('::', 1)[-1] in ('clear', 'erase', 'pop_back', 'resize', 'insert', 'swap', 'assign', 'pop_front', 'push_front', 'emplace_front'):
                ch.append(e)
            if e.kind == 'call' and e.q.rsplit('::', 1)[-1] in ('sort', 'unique', 'remove_if', 'reverse', 'stable_sort', 'rotate') and e.args and re.match(r'begin\(_(vertices|edges|triangles|tetrahedra)\b', f.n(e.args[0])):
                ch.append(e)
        if not ch:
            continue
        ctx.seen.add(D.u)
        if D.acc == 2:
            continue
        n += 1
        clr = [x for x in f.call('Index::clear') if f.n(x.args[0]) == '_index']
        ok = any(all(f.A.B.implies(c.g, x.g) for c in ch) for x in clr)
        ctx.ob(R, '%s changes the elements and clears the index' % D.q.replace('precice::', ''), ok, '%s:%d' % (F.file, F.line), 'changes at %s; %d calls of Index::clear' % (', '.join(sorted({e.loc for e in ch}))[:200], len(clr)))
    ctx.need(R, n, 2)
