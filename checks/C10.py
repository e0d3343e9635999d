"""Communication inside a participant: every collective operation is reached by all ranks or by none."""
from check import *
from api import *
import coll
from q import expr, match

MIN = 400


P2P = ('send', 'receive', 'aSend', 'aReceive', 'sendRange', 'receiveRange')
RANKS = ('IntraComm::allSecondaryRanks()', '[1, IntraComm::getSize())', 'boost::irange(1, IntraComm::getSize())')
# local loops whose bounds are the same on all ranks although they mention local objects
SAME = [
    ('*_multiplyNM_dotProduct*', '[0, PlainObjectBase::rows(arg0))', 'the left factor is replicated: its row number is global'),
    ('*ParallelMatrixOperations::multiply', '[0, PlainObjectBase::rows(arg0))', 'the left factor is replicated: its row number is global'),
]


def run(ctx):
    K = coll.Coll(ctx)
    uniform(ctx, K)
    mirror(ctx, K)
    definitions(ctx)


def atleast(B, gs):
    """[at least one, at least two, ...] of the conditions hold"""
    T = [1] + [0] * len(gs)
    for g in gs:
        for k in range(len(gs), 0, -1):
            T[k] = B.OR(T[k], B.AND(T[k - 1], g))
    return T[1:]


def parallel(f):
    """the conditions of a parallel participant"""
    B = f.A.B
    par = 1
    for a in f.atoms('IntraComm::isParallel()'):
        par = B.AND(par, B.atom(a))
    for s in f.atoms('IntraComm::isSecondary()'):
        for p in f.atoms('IntraComm::isPrimary()'):
            par = B.AND(par, B.OR(B.atom(s), B.atom(p)))
    return B.AND(f.N, par)


def divergent(f, a):
    return coll.divergent(f.n.atom(a))


def roles(primary):
    return {'IntraComm::isPrimary()': primary, 'IntraComm::isSecondary()': not primary, 'IntraComm::isParallel()': True, '(IntraComm::getRank() == 0)': primary, '(0 < IntraComm::getRank())': not primary,
            '(1 < IntraComm::getSize())': True, '(IntraComm::getSize() == 1)': False}


def uniform(ctx, K):
    n = 0
    for F in K.functions():
        f = ctx.analyse(F)
        B = f.A.B
        care = f.collapse(parallel(f))
        groups = {}
        for e in f.events:
            k = K.is_op(f, e)
            if not k or e.q.startswith('precice::com::'):
                continue
            lo = tuple(coll.strip_uniform(f.rng(L)) for L in e.loops)
            groups.setdefault((coll.short(e.q), lo), []).append(e)
        for (q, lo), evs in sorted(groups.items()):
            gs = [f.A.constrain(B.AND(f.collapse(e.g), care), care) for e in evs]
            bad = []
            for t in atleast(B, gs):
                for a in B.support(t):
                    if divergent(f, a) and f.n.atom(a) not in roles(True):
                        x0, x1 = (B.restrict(t, lambda y: v if y is a else None) for v in (False, True))
                        if B.AND(care, B.AND(B.OR(x0, x1), B.NOT(B.AND(x0, x1)))):
                            bad.append(coll.strip_uniform(f.n.atom(a)))
                t1, t2 = (B.restrict(t, lambda y: roles(v).get(f.n.atom(y))) for v in (False, True))
                if t1 != t2:
                    bad.append('the role of the rank')
            lb = [l for l in lo if coll.divergent(l) and not any(match(x, f.name) and match(y, l) for x, y, _ in SAME)]
            n += 1
            ctx.ob('uniform', '%s: %s%s' % (f.name, 'for %s: ' % ' >> '.join(lo)[:80] if lo else '', q), not bad and not lb, '%s:%s' % (F.file, evs[0].line), 'a rank-dependent condition or loop decides whether this rank takes part: %s' % '; '.join(sorted(set(x[:150] for x in bad + lb))))
    ctx.need('uniform', n, 250)


def role(f, K, primary):
    """the operations of one role in order: (operation, type, inside the loop over the ranks, other loops, condition, depends on the data)"""
    B = f.A.B
    asg, other = roles(primary), roles(not primary)
    out = []
    for e in f.events:
        if K.is_op(f, e) != 'op' or not e.q.startswith('precice::com::'):
            continue
        g = f.collapse(f.norm_gate(e.g))
        atoms = {f.n.atom(a) for a in B.support(g)}
        r = B.restrict(g, lambda a: asg.get(f.n.atom(a)))
        o = B.restrict(g, lambda a: other.get(f.n.atom(a)))
        if r == 0:
            continue
        if o == r and e.q.rsplit('::', 1)[-1] in P2P:
            continue                        # both roles do the same: exchange between neighbours
        loops = [f.rng(L) for L in e.loops]
        data = lambda a: divergent(f, a) or 'out(Communication::receive' in f.n.atom(a) or re.search(r'size\((idx|arg\d|vector|DenseBase::block)', f.n.atom(a)) or f.n.atom(a) in ('phi',)
        c = B.exists(r, data)
        op = e.q.rsplit('::', 1)[-1]
        ty = coll.optype(e.d.u, op)
        rest = tuple('loop' for l in loops if l not in RANKS)
        x = [op, ty, any(l in RANKS for l in loops), rest, c, c != r, e.line, r]
        if out and out[-1][:4] == x[:4] and B.AND(out[-1][7], r) == 0:
            out[-1][4] = B.OR(out[-1][4], c)
            out[-1][7] = B.OR(out[-1][7], r)
            out[-1][5] = out[-1][4] != out[-1][7]
        else:
            out.append(x)
    return out


DUAL = {'send': 'receive', 'receive': 'send', 'sendRange': 'receiveRange', 'receiveRange': 'sendRange', 'broadcast': 'broadcast', 'reduceSum': 'reduceSum', 'allreduceSum': 'allreduceSum',
        'aSend': 'receive', 'aReceive': 'send'}


def mirror(ctx, K):
    n = 0
    for F in K.functions():
        f = ctx.analyse(F)
        P, S = role(f, K, True), role(f, K, False)
        if not P and not S:
            continue
        n += 1
        B = f.A.B
        show = lambda x: '%s(%s)%s%s at line %s' % (x[0], x[1], ' for every secondary rank' if x[2] else '', ' if %s' % expr(f, x[4])[:90] if x[4] != 1 else '', x[6])
        ok, why = len(P) == len(S), 'primary rank: %s -- secondary ranks: %s' % ('; '.join(map(show, P)), '; '.join(map(show, S)))
        if ok:
            for p, s in zip(P, S):
                coop = p[0] in ('broadcast', 'reduceSum', 'allreduceSum')
                if s[0].replace('aS', 's').replace('aR', 'r') != DUAL[p[0]] or p[1] != s[1] or p[3] != s[3] or p[4] != s[4] or (p[2] == coop) or s[2] or (p[5] != s[5] and not coop and 'loop' not in p[3]):
                    ok, why = False, 'primary rank: %s -- secondary rank: %s' % (show(p), show(s))
                    break
        ctx.ob('mirror', f.name, ok, '%s:%s' % (F.file, F.line), why)
    ctx.need('mirror', n, 15)


SER = '!{IntraComm::_isPrimaryRank} & !{IntraComm::_isSecondaryRank}'


def definitions(ctx):
    I = 'precice::utils::IntraComm::'
    for op in ('reduceSum', 'allreduceSum'):
        for F in ctx.funcs(I + op):
            f = ctx.analyse(F)
            t = F.params[0].t
            if op == 'reduceSum' and t == 'const double &':
                ctx.spec('reduction', f, 'call IntraComm::reduceSum(precice::refToSpan(arg0), precice::refToSpan(arg1))')
                continue
            ctx.spec('reduction', f, """
                call Communication::%s(IntraComm::_communication, arg0, arg1, 0) | {IntraComm::_isSecondaryRank}
                call Communication::%s(IntraComm::_communication, arg0, arg1) | {IntraComm::_isPrimaryRank}
                %s
            """ % (op, op, 'call std::copy(*arg0*, *arg0*, *arg1*) | ' + SER if 'span' in t else 'store parameter(arg1) = arg0 | ' + SER))
    for F in ctx.funcs(I + 'broadcast'):
        ctx.spec('broadcast', ctx.analyse(F), """
            call Communication::broadcast(IntraComm::_communication, arg0) | {IntraComm::_isPrimaryRank}
            call Communication::broadcast(IntraComm::_communication, arg0, 0) | {IntraComm::_isSecondaryRank}
        """)
    for n, loc, ser in (('l2norm', 'MatrixBase::squaredNorm(arg0)', 'MatrixBase::norm(arg0)'), ('dot', 'MatrixBase::dot(arg0, arg1)', 'MatrixBase::dot(arg0, arg1)')):
        ctx.spec('norms', I + n, """
            call Communication::allreduceSum(IntraComm::_communication, LOC, *, 0) | {IntraComm::_isSecondaryRank}
            call Communication::allreduceSum(IntraComm::_communication, LOC, *) @ !IntraComm::_isSecondaryRank | !{IntraComm::_isSecondaryRank} & {IntraComm::_isPrimaryRank}
            ret return() = SERIAL | SER
            ret return() = RES | !(SER)
        """.replace('SERIAL', ser).replace('SER', SER).replace('LOC', loc).replace('RES', 'sqrt(*out(Communication::allreduceSum)*)' if n == 'l2norm' else '*out(Communication::allreduceSum)*'))
    ctx.spec('roles', I + 'configure', """
        final IntraComm::_rank = arg0
        final IntraComm::_size = arg1
        final IntraComm::_isPrimaryRank := {(arg0 == 0)} & !{(arg1 == 1)}
        final IntraComm::_isSecondaryRank := !{(arg0 == 0)}
    """)
    ctx.spec('roles', I + 'isParallel', 'returns | {IntraComm::_isPrimaryRank} | {IntraComm::_isSecondaryRank}')
    ctx.spec('roles', I + 'isPrimary', 'ret return() = IntraComm::_isPrimaryRank')
    ctx.spec('roles', I + 'isSecondary', 'ret return() = IntraComm::_isSecondaryRank')
    ctx.spec('roles', I + 'allSecondaryRanks', 'ret return() = boost::irange(1, IntraComm::_size)')
    ctx.spec('roles', I + 'allRanks', 'ret return() = boost::irange(0, IntraComm::_size)')
    ctx.spec('roles', I + 'getRank', 'ret return() = IntraComm::_rank')
    ctx.spec('roles', I + 'getSize', 'ret return() = IntraComm::_size')
