"""Collective-operation analysis: which functions take part in communication inside a participant, under which conditions."""
import re
from q import short, match, evtext, expr

OPS = ('l2norm', 'dot', 'reduceSum', 'allreduceSum', 'broadcast', 'barrier')
# parts of a condition that may differ between the ranks of one participant: local mesh entities, local values, the rank itself
DIVERGENT = re.compile(r'Mesh::(nVertices|vertices|vertex|edges|triangles|tetrahedra|index|isEmpty|empty|getBoundingBox|isValidVertexID)\(|_mesh\._(vertices|edges|triangles|tetrahedra|ownedVertices|vertexOffsets|vertexDistribution|connectedRanks|communicationMap|index|boundingBox)'
                       r'|IntraComm::(getRank|_rank)|BoundingBox|size\(VectorXd|size\(MatrixXd|PlainObjectBase::rows\(|EigenBase::rows\(|DenseBase::(rows|maxCoeff|minCoeff|sum|any|all|isZero)|MatrixBase::(norm|dot|squaredNorm|lpNorm|isZero)'
                       r'|size\((_?\w*[vV]alues|_?\w*[rR]esiduals?)\b|CouplingData::(values|nVertices|size)|\.(values|gradients)\b|_localIndices|_mappings\b|_localCommunications|_clusters|std::isnan\((?!U)|find\(|std::filesystem|boost::filesystem|getenv|rand\(')
LOCAL = re.compile(r'Xd|Matrix|Vector(?!Sizes)|DenseBase|Preconditioner::|[vV]alues|[rR]esidual|^arg\d$|_matrix[VW]\b|Sample|span')


def balanced(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


def divergent(s):
    """may this condition differ between ranks?"""
    s = strip_uniform(s)
    if DIVERGENT.search(s):
        return True
    for m in re.finditer(r'(?<![\w:])size\(', s):
        if LOCAL.search(s[m.end():balanced(s, m.end() - 1)]):
            return True
    return False


def strip_uniform(s):
    """results of collective operations are the same on all ranks"""
    for m in (r'PlainObjectBase::cols\(', r'IntraComm::(?:l2norm|dot|l2normGlobal)\(', r'out\((?:\w+::)*IntraComm::(?:allreduceSum|broadcast)\)()'):
        while True:
            x = re.search(m, s)
            if not x:
                break
            j = balanced(s, x.start() + s[x.start():].index('('))
            s = s[:x.start()] + 'U' + s[j + 1:]
    return s


def optype(usr, op):
    """element type of a communication operation, from the signature: scalar 'I', 'd', 'b', 's' or span '[I]', '[d]', vector '<I>', '<d>'"""
    sig = usr.split('@F@', 1)[1]
    sig = sig[sig.index('#') + 1:]
    m = re.search(r'S@span>#1?([A-Za-z])', sig)
    if m:
        return '[%s]' % m.group(1)
    m = re.search(r'S@AsVectorTag>#([A-Za-z])', sig)
    if m:
        return '[%s]' % m.group(1)
    m = re.search(r'S@vector>#([A-Za-z])', sig)
    if m:
        return '<%s>' % m.group(1)
    if 'basic_string' in sig:
        return 's'
    m = re.match(r'&?1?([A-Za-z])#', sig)
    return m.group(1) if m else sig


class Coll:
    def __init__(self, ctx):
        self.ctx = ctx
        P, E = ctx.P, ctx.E
        self.prim = {u for u, F in P.funcs.items() if F.d.q.startswith('precice::utils::IntraComm::') and F.d.q.rsplit('::', 1)[-1] in OPS}
        S = set(self.prim)
        for u, F in P.funcs.items():
            if any(c in P.funcs and P.funcs[c].d.q.endswith('IntraComm::getCommunication') for c in E.calls[u]):
                S.add(u)
        w = list(S)
        while w:
            u = w.pop()
            for p in E.rev.get(u, ()):
                if p not in S and not P.funcs[p].d.q.startswith('precice::profiling::'):
                    S.add(p)
                    w.append(p)
        self.S = S

    def functions(self):
        P = self.ctx.P
        seen = set()
        out = []
        for u in self.S:
            F = P.funcs[u]
            if '/tests/' in F.file or '/testing/' in F.file or 'extras/' in F.file or F.body is None or F.dep or F.d.q.startswith('precice::utils::IntraComm::'):
                continue
            if (F.file, F.line) in seen:
                continue
            seen.add((F.file, F.line))
            out.append(F)
        return sorted(out, key=lambda F: (F.file, F.line, F.d.u))

    def is_op(self, f, e):
        """'op' for an operation of the communication inside the participant, 'call' for a call that contains some"""
        if e.kind not in ('call', 'new', 'ctor') or e.d is None:
            return None
        if e.q.startswith('precice::com::Communication::'):
            recv = f.n(e.args[0]) if e.args else ''
            return 'op' if 'IntraComm::' in recv.split('(', 1)[0] + recv and e.q.rsplit('::', 1)[-1] in ('send', 'receive', 'aSend', 'aReceive', 'broadcast', 'reduceSum', 'allreduceSum', 'sendRange', 'receiveRange') else None
        t = set(self.ctx.E.targets(e.d))
        if t & self.prim:
            return 'op'
        return 'call' if t & self.S else None
