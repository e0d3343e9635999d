"""Asynchronous communication: every request is waited for while its buffer is alive and unchanged."""
from check import *
from api import *
import effects
import reqflow

MIN = 30
OWNERS = {'precice::m2n::PointToPointCommunication::Mapping::request': 'waited for in the second loop of receive()',
          'precice::m2n::PointToPointCommunication::bufferedRequests': 'waited for by checkBufferedRequests() before the connection is closed'}


def run(ctx):
    n = 0
    for F in ctx.P.funcs.values():
        if not F.body or '/tests/' in F.file or 'testing/' in F.file:
            continue
        if not any(x.get('k') == 'call' and 'd' in x and reqflow.creates(F.tu.decls[x['d']]) for x in effects.walkx(F.body, F.tu)):
            continue
        fl = reqflow.Flow(ctx, F)
        by = {}
        for l, t in fl.viol:
            by.setdefault(l, t)
        for l, what in sorted(fl.sites.items()):
            n += 1
            own = [h for h, site in fl.held if site == l and h not in OWNERS]
            t = [t for k, t in fl.viol if k == l or 'line %s ' % l in t]
            ok = not t and not own
            ctx.ob('typestate', '%s in %s' % (what, F.d.q), ok, '%s:%s' % (F.file, l), (t or ['the request is left pending in %s' % own])[0] if not ok else '')
        for l, t in fl.viol:
            if l not in fl.sites and not any('line %s ' % s in t for s in fl.sites):
                ctx.ob('typestate', F.d.q, False, '%s:%s' % (F.file, l), t)
    ctx.need('typestate', n, 25)
    p2p(ctx)


def p2p(ctx):
    """point-to-point exchange: the pending request keeps the buffer it was created with; nothing is closed before the requests are done"""
    P = 'precice::m2n::PointToPointCommunication::'
    SOME = '!{(size(_mappings) == 0)} & !{(size(arg0) == 0)}'
    ctx.spec('p2p', P + 'send', """
        REQ) for _mappings: call list::emplace_back(bufferedRequests, Communication::aSend(_communication, span(*), elem(_mappings).remoteRank), *) | SOME
        SND) for _mappings: call Communication::aSend(_communication, span(*), elem(_mappings).remoteRank) | SOME
        PUT) for _mappings >> elem(_mappings).indices >> [0, arg1): call vector::push_back(*, idx(arg0, arg1*elem(elem(_mappings).indices)+iv)) | SOME
        order PUT < SND < REQ
    """.replace('SOME', SOME))
    ctx.spec('p2p', P + 'receive', """
        SIZE) for _mappings: when call vector::resize(elem(_mappings).recvBuffer, arg1*size(elem(_mappings).indices)) | SOME
        RECV) for _mappings: call Communication::aReceive(_communication, span(elem(_mappings).recvBuffer*), elem(_mappings).remoteRank) | SOME
        WAIT) for _mappings: when call Request::wait(elem(_mappings).request) | SOME
        ADD) for _mappings >> elem(_mappings).indices >> [0, arg1): when store par(idx(arg0, arg1*elem(elem(_mappings).indices)+iv)) = *idx(elem(_mappings).recvBuffer, *) | SOME
        order SIZE < RECV < WAIT < ADD
    """.replace('SOME', SOME))
    ctx.spec('p2p', P + 'checkBufferedRequests', """
        for *: call list::erase(bufferedRequests, *) | !{(end(bufferedRequests) == phi)} & {Request::test(phi.first)}
        ends 0 | !{arg0} | {(size(bufferedRequests) == 0)}
    """)
    keep = lambda A, F, D: ctx.policy(A, F, D) and D.n != 'checkBufferedRequests'
    ctx.spec('p2p', ctx.fn(P + 'closeConnection', policy=keep), """
        TEST) when call PointToPointCommunication::checkBufferedRequests(this(), 1) | {_isConnected}
        CLOSE) when store PointToPointCommunication::_communication(*) = null() | {_isConnected}
        order TEST < CLOSE
    """)
