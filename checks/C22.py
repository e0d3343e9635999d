"""Communication backends: every operation moves exactly its argument to exactly the addressed peer."""
from check import *
from api import *
import coll
import locks
from q import expr, match

MIN = 180
C = 'precice::com::'
ADJ = 'Communication::adjustRank(this(), arg1)'
MPI = {'I': 'ompi_mpi_int', 'd': 'ompi_mpi_double', 'b': 'MPI_Select_unsigned_integer_datatype::datatype', 's': 'ompi_mpi_char'}
CPP = {'I': 'int', 'd': 'double', 'b': 'bool'}
OTHERS = {'send': ('MPI_Recv', 'MPI_Isend', 'MPI_Irecv'), 'aSend': ('MPI_Send', 'MPI_Recv', 'MPI_Irecv'), 'receive': ('MPI_Send', 'MPI_Isend', 'MPI_Irecv'), 'aReceive': ('MPI_Send', 'MPI_Recv', 'MPI_Isend')}


def kind(F):
    """(element type, is it a range) of the first parameter"""
    t = F.params[0].t
    if 'string' in t:
        return 's', True
    r = 'span' in t or 'vector' in t
    return ('d' if 'double' in t else 'b' if 'bool' in t else 'I'), r


def run(ctx):
    mpi(ctx)
    sockets(ctx)
    direct(ctx)
    defaults(ctx)
    completion(ctx)
    handshake(ctx)
    addressing(ctx)


def peer(c):
    return '%s::rank(this(), %s), 0, %s::communicator(this(), %s)' % (c, ADJ, c, ADJ)


def mpi(ctx):
    n = 0
    c = 'MPICommunication'
    for op, call in (('send', 'MPI_Send'), ('aSend', 'MPI_Isend'), ('receive', 'MPI_Recv'), ('aReceive', 'MPI_Irecv')):
        for F in ctx.funcs(C + c + '::' + op):
            f = ctx.analyse(F)
            t, rng = kind(F)
            n += 1
            if len(f.call('%s::%s' % (c, op))):
                ctx.spec('mpi', f, 'ret return() = %s::%s(this(), precice::refToSpan(arg0), arg1)' % (c, op))
                continue
            if op == 'receive' and t == 's':
                ctx.spec('mpi', f, """
                    call MPI_Probe(MPICommunication::rank(this(), ADJ), 0, MPICommunication::communicator(this(), ADJ), *)
                    call MPI_Get_count(out(MPI_Probe), ompi_mpi_char, *)
                    call MPI_Recv(*string(out(MPI_Get_count), 0, *)*, out(MPI_Get_count), ompi_mpi_char, MPICommunication::rank(this(), ADJ), 0, MPICommunication::communicator(this(), ADJ), *)
                """.replace('ADJ', ADJ))
            else:
                ctx.spec('mpi', f, 'call %s(*arg0*, %s, %s, %s%s)\nwhen call %s(*)' % (call, 'size(arg0)' if rng else '1', MPI[t], peer(c), '' if op == 'send' else ', *', call))
            for o in OTHERS[op]:
                ctx.spec('mpi', f, 'none call %s(*)' % o)
            if op[0] == 'a':
                ctx.spec('mpi', f, 'ret return() = *MPIRequest, (out(%s))*' % call)
    ctx.need('mpi', n, 20)


SO = 'idx(_sockets, %s)' % ADJ


def buf(t, rng):
    b = 'asio::buffer(arg0, size(arg0)*sizeof(%s))' % CPP[t] if rng else 'asio::buffer(arg0, sizeof(%s))' % CPP[t]
    return b


def sockets(ctx):
    n = 0
    c = 'SocketCommunication'
    for op in ('send', 'aSend', 'receive', 'aReceive'):
        for F in ctx.funcs(C + c + '::' + op):
            f = ctx.analyse(F)
            t, rng = kind(F)
            n += 1
            if len(f.call('%s::%s' % (c, op))):
                ctx.spec('sockets', f, 'ret return() = %s::%s(this(), precice::refToSpan(arg0), arg1)' % (c, op))
                continue
            if t == 's':
                io = 'asio::write' if op == 'send' else 'asio::read'
                ctx.spec('sockets', f, ("""
                    a) call asio::write(SO, asio::buffer(1+size(arg0), sizeof(size_t)), *)
                    b) call asio::write(SO, asio::buffer(basic_string::*(arg0), *), *)
                    order a < b
                """ if op == 'send' else """
                    a) call asio::read(SO, asio::buffer(*, sizeof(size_t)), *)
                    b) call asio::read(SO, asio::buffer(*(out(asio::buffer)*, *), *)
                    order a < b
                    store parameter(arg0) = *
                """).replace('SO', SO))
            else:
                B = buf(t, rng)
                ctx.spec('sockets', f, {
                    'send': 'call asio::write(SO, BUF, *)\nwhen call asio::write(*)\nnone call asio::read(*)',
                    'receive': 'call asio::read(SO, BUF, *)\nwhen call asio::read(*)\nnone call asio::write(*)',
                    'aSend': 'call SocketSendQueue::dispatch(_queue, SO, BUF, *)\nwhen call SocketSendQueue::dispatch(*)\nnone call asio::*(SO*)',
                    'aReceive': 'call asio::async_read(SO, BUF, *)\nwhen call asio::async_read(*)\nnone call asio::*write(*)'}[op].replace('SO', SO).replace('BUF', B))
            if op[0] == 'a':
                ctx.spec('sockets', f, 'for lambda: call SocketRequest::complete(*new(SocketRequest, *)*)\nret return() = *new(SocketRequest, *)*')
            else:
                ctx.spec('sockets', f, 'none call SocketSendQueue::*\nnone call asio::async_*')
    ctx.need('sockets', n, 20)


def direct(ctx):
    n = 0
    c = 'MPIDirectCommunication'
    for op in ('reduceSum', 'allreduceSum', 'broadcast'):
        for F in ctx.funcs(C + c + '::' + op):
            f = ctx.analyse(F)
            t, rng = kind(F)
            n += 1
            cnt = 'size(arg*)' if rng else '1'
            if op == 'reduceSum':
                root = 'CommState::rank(_commState)' if len(F.params) == 2 else 'arg2'
                ctx.spec('direct', f, 'call MPI_Reduce(*arg0*, *arg1*, %s, %s, ompi_mpi_op_sum, %s, _commState.comm)' % (cnt, MPI[t], root))
            elif op == 'allreduceSum':
                ctx.spec('direct', f, 'call MPI_Allreduce(*arg0*, *arg1*, %s, %s, ompi_mpi_op_sum, _commState.comm)' % (cnt, MPI[t]))
            else:
                root = '0' if len(F.params) == 1 else 'arg1'
                if t == 'b':
                    ctx.spec('direct', f, 'call %s::broadcast(this(), arg0)' % c if len(F.params) == 1 else 'call %s::broadcast(this(), *, arg1)\nstore parameter(arg0) = *out(%s::broadcast)*' % (c, c))
                elif rng:
                    ctx.spec('direct', f, 'call MPI_Bcast(*arg0*, %s, %s, %s, _commState.comm)' % (cnt, MPI[t], root))
                else:
                    ctx.spec('direct', f, 'call %s::broadcast(this(), precice::refToSpan(arg0)%s)' % (c, '' if len(F.params) == 1 else ', arg1'))
    ctx.need('direct', n, 16)


def defaults(ctx):
    R = 'for [0, Communication::getRemoteCommunicatorSize(this())): '
    n = 0
    for F in ctx.funcs(C + 'Communication::reduceSum') + ctx.funcs(C + 'Communication::allreduceSum'):
        f = ctx.analyse(F)
        t, rng = kind(F)
        al = F.d.q.endswith('allreduceSum')
        n += 1
        if len(F.params) == 3:
            snd = 'a) call Request::wait(Communication::aSend(this(), arg0, arg2))\ncall Communication::aSend(this(), arg0, arg2)\n' if not (al and rng) else 'a) call Communication::reduceSum(this(), arg0, arg1, arg2)\n'
            ctx.spec('collectives', f, snd + ('b) call Communication::receive(this(), arg1, _rankOffset+arg2)\norder a < b' if al else 'none call Communication::receive(*)'))
            continue
        if al and rng:
            ctx.spec('collectives', f, 'call Communication::reduceSum(this(), arg0, arg1)')
        else:
            ctx.spec('collectives', f, ('call std::copy(begin(arg0), end(arg0), begin(arg1))\n' if rng else 'store parameter(arg1) = arg0\n') + """
                R a) call Communication::aReceive(this(), *, _rankOffset+iv)
                R b) call Request::wait(Communication::aReceive(this(), *, _rankOffset+iv))
                order a < b
            """.replace('R a)', 'a) ' + R).replace('R b)', 'b) ' + R))
            if rng:
                ctx.spec('collectives', f, 'c) %s >> phi: store par(idx(arg1, iv)) = idx(*, iv)+idx(arg1, iv)\nb) %scall Request::wait(*)\norder b < c' % (R[:-2], R))
            else:
                ctx.spec('collectives', f, 'c) %sstore parameter(arg1) = out(Communication::aReceive)+phi\nb) %scall Request::wait(*)\norder b < c' % (R, R))
        if al:
            ctx.spec('collectives', f, """
                s) %scall Communication::aSend(this(), *arg%s*, _rankOffset+iv)
                w) call Request::wait(*)
                order s < w
            """ % (R, '1' if rng else '0'))
    for F in ctx.funcs(C + 'Communication::broadcast'):
        f = ctx.analyse(F)
        t, rng = kind(F)
        n += 1
        if 'vector' in F.params[0].t:
            ctx.spec('collectives', f, """
                a) call Communication::broadcast(this(), size(arg0))
                b) call Communication::broadcast(this(), arg0)
                order a < b
            """ if len(F.params) == 1 else """
                r) call vector::resize(arg0, out(Communication::broadcast))
                b) call Communication::broadcast(this(), arg0, arg1)
                order r < b
            """)
        elif t == 'b':
            ctx.spec('collectives', f, 'call Communication::broadcast(this(), arg0)' if len(F.params) == 1 else 'call Communication::broadcast(this(), *, arg1)\nstore parameter(arg0) = *out(Communication::broadcast)*')
        elif len(F.params) == 2:
            ctx.spec('collectives', f, 'call Communication::receive(this(), arg0, _rankOffset+arg1)')
        else:
            ctx.spec('collectives', f, """
                s) %scall Communication::aSend(this(), arg0, _rankOffset+iv)
                w) call Request::wait(*)
                order s < w
            """ % R)
    for F in ctx.funcs(C + 'Communication::sendRange'):
        n += 1
        ctx.spec('ranges', ctx.analyse(F), """
            a) call Communication::send(this(), size(arg0), arg1)
            b) call Communication::send(this(), arg0, arg1) | !{(size(arg0) == 0)}
            order a < b
        """)
    for F in ctx.funcs(C + 'Communication::receiveRange'):
        n += 1
        ctx.spec('ranges', ctx.analyse(F), """
            r) call vector::resize(*, out(Communication::receive)) | {(0 < out(Communication::receive))}
            b) call Communication::receive(this(), *~resize(out(Communication::receive)), arg0) | {(0 < out(Communication::receive))}
            order r < b
            ret return() = *~resize(out(Communication::receive)) | {(0 < out(Communication::receive))}
        """)
    ctx.need('collectives', n, 22)


def completion(ctx):
    ctx.spec('completion', C + 'SocketRequest::complete', """
        s) store SocketRequest::_complete(*) = 1
        n) call condition_variable::notify_*(_completeCondition)
        order s < n
    """)
    ctx.spec('completion', C + 'SocketRequest::test', 'ret return() = _complete')
    ctx.spec('completion', C + 'SocketRequest::wait', 'call condition_variable::wait(_completeCondition, *)')
    ctx.spec('completion', C + 'MPIRequest::wait', 'call MPI_Wait(_request, *)')
    ctx.spec('completion', C + 'MPIRequest::test', 'call MPI_Test(_request, *, *)')
    ctx.spec('completion', C + 'Request::wait', 'for arg0: call Request::wait(elem(arg0))')
    # the queue keeps the order of the messages of a connection: one message in flight, first in first out
    for fn in ('dispatch', 'sendCompleted'):
        d = fn == 'dispatch'
        idle = ('{_ready} & ' if d else '') + '!{(size(_itemQueue*) == 0)}'
        ctx.spec('queue', C + 'SocketSendQueue::' + fn, """
            a) FIRST
            b) call deque::front(_itemQueue*) | IDLE
            call deque::pop_front(_itemQueue*) | IDLE
            when call deque::pop_front(*) | IDLE
            call asio::async_write(deque::front(*).sock, deque::front(*).data, *) | IDLE
            when call asio::async_write(*) | IDLE
            store SocketSendQueue::_ready(*) = 0 | IDLE
            when store SocketSendQueue::_ready(*) = 0 | IDLE
            for lambda: call function::operator()(deque::front(*).callback) | IDLE
            for lambda: when call function::operator()(deque::front(*).callback) | IDLE
            for lambda: when RESUME | IDLE
            order a < b
        """.replace('IDLE', idle).replace('FIRST', 'call deque::push_back(_itemQueue, *arg0*arg1*arg2*)' if d else 'store SocketSendQueue::_ready(*) = 1')
            .replace('RESUME', 'store SocketSendQueue::_ready(*) = 1' if d else 'call SocketSendQueue::sendCompleted(this())'))
    n = locks.discipline(ctx, 'locks', C + 'SocketSendQueue', ('_itemQueue', '_ready'), '_queueMutex')
    n += locks.discipline(ctx, 'locks', C + 'SocketRequest', ('_complete',), '_completeMutex')
    ctx.need('locks', n, 5)


def handshake(ctx):
    S = C + 'SocketCommunication::'
    RUN = """
        final _thread = thread(*) | COND
        final _workGuard = *make_work_guard* | COND
    """
    ctx.spec('handshake', S + 'acceptConnection', """
        call Communication::setRankOffset(this(), arg4)
        w) call ConnectionInfoWriter::write(ConnectionInfoWriter(arg0, arg1, arg2, _addressDirectory), *local_endpoint*)
        l) call basic_socket_acceptor::listen(*)
        order l < w
        c) for do: call basic_socket_acceptor::accept(*)
        order w < c
        r) for do: call asio::read(new(*basic_stream_socket*), asio::buffer(*, sizeof(int)), *)
        s) for do: store SocketCommunication::_sockets(idx(_sockets, out(asio::buffer))) = new(*basic_stream_socket*)
        x) for do: call asio::write(idx(_sockets, Communication::adjustRank(this(), arg4+out(asio::buffer))), asio::buffer(arg3, sizeof(int)), *)
        y) for do: call asio::read(idx(_sockets, Communication::adjustRank(this(), arg4+out(asio::buffer))), asio::buffer(*, sizeof(int)), *)
        order c < r < s < x < y
        for do: when store Communication::_isConnected(*) = 1
    """ + RUN.replace(' | COND', ''))
    ctx.spec('handshake', S + 'acceptConnectionAsServer', """
        w) call ConnectionInfoWriter::write(ConnectionInfoWriter(arg0, arg1, arg2, arg3, _addressDirectory), *local_endpoint*) | !{(arg4 == 0)}
        l) call basic_socket_acceptor::listen(*) | !{(arg4 == 0)}
        order l < w
        c) for [0, arg4): call basic_socket_acceptor::accept(*) | !{(arg4 == 0)}
        order w < c
        r) for [0, arg4): call asio::read(new(*basic_stream_socket*), asio::buffer(*, sizeof(int)), *) | !{(arg4 == 0)}
        s) for [0, arg4): store SocketCommunication::_sockets(idx(_sockets, out(asio::buffer))) = new(*basic_stream_socket*) | !{(arg4 == 0)}
        order c < r < s
        store Communication::_isConnected(*) = 1 | {(arg4 == 0)}
    """ + RUN.replace('COND', '!{(arg4 == 0)}'))
    ctx.spec('handshake', S + 'requestConnection', """
        c) for while: call basic_socket::connect(*) | !{_isConnected}
        w) call asio::write(*, asio::buffer(arg3, sizeof(int)), *)
        r) call asio::read(*, asio::buffer(*, sizeof(int)), *)
        s) store SocketCommunication::_sockets(idx(_sockets, 0)) = *
        x) call asio::write(idx(_sockets, Communication::adjustRank(this(), 0)), asio::buffer(arg4, sizeof(int)), *)
        order c < w < r < s < x
        for while: store Communication::_isConnected(*) = <!error_code::operator bool(out(basic_socket::connect))> | !{_isConnected}
    """ + RUN.replace(' | COND', ''))
    ctx.spec('handshake', S + 'requestConnectionAsClient', """
        c) for arg3 >> while: call asio::connect(*) | !{_isConnected}
        s) for arg3: store SocketCommunication::_sockets(idx(_sockets, elem(arg3))) = *
        x) for arg3: call asio::write(idx(_sockets, Communication::adjustRank(this(), elem(arg3))), asio::buffer(arg4, sizeof(int)), *)
        order c < s < x
        i) for arg3: store Communication::_isConnected(*) = 0
        order i < c
    """ + RUN.replace(' | COND', ''))
    ctx.spec('shutdown', S + 'closeConnection', """
        s) call io_context::stop(_ioContext) | {_isConnected} & {thread::joinable(_thread)}
        j) call thread::join(_thread) | {_isConnected} & {thread::joinable(_thread)}
        x) for _sockets: call basic_socket::close(elem(_sockets)*) | {_isConnected}
        order s < j < x
        final _isConnected = 0 | {_isConnected}
    """)
    M = C + 'MPIPortsCommunication::'
    acc = """
        w) call ConnectionInfoWriter::write(ConnectionInfoWriter(arg0, arg1, arg2, _addressDirectory), StringMaker::str(*))
        o) call MPI_Open_port(*)
        c) for do: call MPI_Comm_accept(*)
        order o < w < c
        r) for do: call MPI_Recv(*, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_accept), *)
        s) for do: call MPI_Send(arg3, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_accept))
        e) for do: call map::emplace(STORE, out(MPI_Recv), out(MPI_Comm_accept))
        call Communication::setRankOffset(this(), arg4)
        final _isConnected = 1
    """
    req = """
        c) call MPI_Comm_connect(*ConnectionInfoReader::read(ConnectionInfoReader(arg0, arg1, arg2, _addressDirectory))*)
        a) call MPI_Send(arg3, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_connect))
        b) call MPI_Send(arg4, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_connect))
        r) call MPI_Recv(*, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_connect), *)
        e) call map::emplace(STORE, *, out(MPI_Comm_connect))
        order c < a < b < r
        final _isConnected = 1
    """
    ctx.spec('handshake', M + 'acceptConnection', acc.replace('STORE', '_communicators'))
    ctx.spec('handshake', M + 'requestConnection', req.replace('STORE', '_communicators'))
    ctx.spec('handshake', M + 'acceptConnectionAsServer', """
        w) call ConnectionInfoWriter::write(ConnectionInfoWriter(arg0, arg1, arg2, arg3, _addressDirectory), StringMaker::str(*))
        c) for [0, arg4): call MPI_Comm_accept(*)
        order w < c
        for [0, arg4): call MPI_Recv(*, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_accept), *)
        for [0, arg4): call map::emplace(_communicators, out(MPI_Recv), out(MPI_Comm_accept))
        final _isConnected = 1
    """)
    ctx.spec('handshake', M + 'requestConnectionAsClient', """
        for arg3: call MPI_Comm_connect(*ConnectionInfoReader::read(ConnectionInfoReader(arg0, arg1, arg2, elem(arg3), _addressDirectory))*)
        for arg3: call MPI_Send(arg4, 1, ompi_mpi_int, 0, 42, out(MPI_Comm_connect))
        for arg3: call map::emplace(_communicators, elem(arg3), out(MPI_Comm_connect))
        final _isConnected = 1
    """)
    ctx.spec('shutdown', M + 'closeConnection', """
        for _communicators: call MPI_Comm_disconnect(elem(_communicators).second) | {_isConnected}
        final _isConnected = 0 | {_isConnected}
    """)
    M = C + 'MPISinglePortsCommunication::'
    ctx.spec('handshake', M + 'acceptConnection', acc.replace('STORE', '_direct'))
    ctx.spec('handshake', M + 'requestConnection', req.replace('STORE', '_direct'))
    ctx.spec('handshake', M + 'acceptConnectionAsServer', """
        call ConnectionInfoWriter::write(ConnectionInfoWriter(arg0, arg1, arg2, _addressDirectory), StringMaker::str(*)) | {(CommState::rank(Parallel::current()) == 0)}
        call MPI_Comm_accept(*, ompi_mpi_info_null, 0, Parallel::current().comm, _global)
        when call MPI_Comm_accept(*)
        final _isConnected = 1
    """)
    ctx.spec('handshake', M + 'requestConnectionAsClient', """
        call MPI_Comm_connect(*ConnectionInfoReader::read(ConnectionInfoReader(arg0, arg1, arg2, _addressDirectory))*, ompi_mpi_info_null, 0, Parallel::current().comm, _global)
        final _isConnected = 1
    """)
    M = C + 'MPIDirectCommunication::'
    for fn, off in (('acceptConnection', 'arg4'), ('requestConnection', '0')):
        ctx.spec('handshake', M + fn, """
            call Communication::setRankOffset(this(), %s)
            final _isConnected = 1
            final _commState = Parallel::current()
        """ % off)
    # rendezvous files: published atomically, after the address is known
    ctx.spec('rendezvous', C + 'ConnectionInfoWriter::write', """
        p) call fmt::print(*arg0*)
        r) call filesystem::rename(*, *)
        order p < r
        none call filesystem::remove*
    """)
    ctx.spec('rendezvous', C + 'ConnectionInfoReader::read', """
        e) for while: call filesystem::exists(*)
        g) call std::getline(*)
        order e < g
    """)
    for side in ('Reader', 'Writer'):
        pass
    ctx.spec('intracomm', C + 'Communication::connectIntraComm', """
        a) call Communication::prepareEstablishment(*) | !{(arg3 == 1)} & {(arg2 == 0)}
        b) call Communication::acceptConnection(this(), cat(arg0, "Primary"), cat(arg0, "Secondary"), arg1, arg2, 1) | !{(arg3 == 1)} & {(arg2 == 0)}
        c) call Communication::cleanupEstablishment(*) | !{(arg3 == 1)} & {(arg2 == 0)}
        order a < b < c
        call Communication::requestConnection(this(), cat(arg0, "Primary"), cat(arg0, "Secondary"), arg1, -1*1+arg2, -1*1+arg3) | !{(arg2 == 0)} & !{(arg3 == 1)}
    """)


def addressing(ctx):
    ctx.spec('addressing', C + 'Communication::adjustRank', 'ret return() = -1*_rankOffset+arg0')
    ctx.spec('addressing', C + 'Communication::setRankOffset', 'final _rankOffset = arg0')
    ctx.spec('addressing', C + 'MPIPortsCommunication::communicator', 'ret return() = idx(_communicators, arg0)')
    ctx.spec('addressing', C + 'MPIPortsCommunication::rank', 'ret return() = 0')
    ctx.spec('addressing', C + 'MPIPortsCommunication::getRemoteCommunicatorSize', 'ret return() = size(_communicators)')
    G = '!{(_global == ompi_mpi_comm_null)}'
    ctx.spec('addressing', C + 'MPISinglePortsCommunication::communicator', """
        ret return() = _global | %s
        ret return() = idx(_direct, arg0) | !(%s)
    """ % (G, G))
    ctx.spec('addressing', C + 'MPISinglePortsCommunication::rank', """
        ret return() = arg0 | %s
        ret return() = 0 | !(%s)
    """ % (G, G))
    ctx.spec('addressing', C + 'MPIDirectCommunication::communicator', 'ret return() = _commState.comm')
    ctx.spec('addressing', C + 'MPIDirectCommunication::rank', 'ret return() = arg0')
    ctx.spec('addressing', C + 'SocketCommunication::getRemoteCommunicatorSize', 'ret return() = size(_sockets)')
