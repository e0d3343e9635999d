"""Required actions: what the solver must do (write initial data, write/read a checkpoint) is reported to it
exactly when the coupling needs it, marked as done only by asking for it, and a forgotten action is an error
before the next exchange. Gated path summaries of the interface functions, of the coupling schemes and of
their composition are compared with this protocol; all sites that require an action are enumerated."""
from check import *
from api import *

MIN = 30
B_ = 'precice::cplscheme::BaseCouplingScheme::'
C_ = 'precice::cplscheme::CompositionalCouplingScheme::'
IMP = '{(_couplingMode == BaseCouplingScheme::Implicit)}'
WEND = '({math::equals(_timeWindowSize, -1, 1e-14)} | {TimeHandler::reachedEndOfWindow(_time, _timeWindowSize)})'
GOING = '(!{TimeHandler::reachedEnd(_time)} & ({(_maxTimeWindows == -1)} | !{(_maxTimeWindows < _timeWindows)}))'
MISS = ' | '.join('{contains(_requiredActions, Action::%s)} & !{contains(_fulfilledActions, Action::%s)}' % (a, a) for a in ('InitializeData', 'ReadCheckpoint', 'WriteCheckpoint'))


def run(ctx):
    for op, a, st in (('requiresInitialData', 'InitializeData', '!{(_state == State::Constructed)}'),
                      ('requiresReadingCheckpoint', 'ReadCheckpoint', '!{(_state == State::Initialized)}'),
                      ('requiresWritingCheckpoint', 'WriteCheckpoint', '!{(_state == State::Initialized)}')):
        req = '{CouplingScheme::isActionRequired(_couplingScheme, Action::%s)}' % a
        ctx.spec('reported', IMPL + op, '''
            call CouplingScheme::markActionFulfilled(_couplingScheme, Action::%s) | %s
            returns | %s
            throws | %s
            ''' % (a, req, req, st))
        f = ctx.fn(IMPL + op)
        other = [e for e in f.call('CouplingScheme::markActionFulfilled') if a not in f.n(e.args[-1])]
        ctx.ob('reported', op + ' fulfils no other action', not other, other[0].loc if other else '')
    # the initial data must have been asked for before initialize does anything
    f = ctx.fn(IMPL + 'initialize')
    need = '{CouplingScheme::isActionRequired(_couplingScheme, Action::InitializeData)} & !{CouplingScheme::isActionFulfilled(_couplingScheme, Action::InitializeData)}'
    ctx.throws('enforced', f, need, mode='when')
    # marking happens nowhere else
    sites = []
    for u, F in ctx.P.funcs.items():
        if F.body is None or F.dep or not F.file.startswith('src/') or '/tests/' in F.file or 'src/testing' in F.file:
            continue
        for c in ctx.E.calls[u]:
            D = ctx.P.funcs[c].d if c in ctx.P.funcs else None
            if D is not None and D.n == 'markActionFulfilled' and F.d.n != 'markActionFulfilled':
                sites.append((F.d.q, F.file, F.line))
    api = {'requiresInitialData', 'requiresReadingCheckpoint', 'requiresWritingCheckpoint'}
    ctx.need('markActionFulfilled callers', len({s[0] for s in sites}))
    for q, fi, l in sorted(set(sites)):
        F = ctx.P.byq[q][0]
        roots = roots_of(ctx, F.d.u)
        bad = {r for r in roots if r.startswith(IMPL) and r.split('::')[-1] not in api and r.split('::')[-1] not in short(q)}
        ok = q.split('::')[-1] in api or q not in ctx.base
        ctx.ob('fulfilled only by asking', '%s may mark actions as fulfilled' % short(q), ok, '%s:%s' % (fi, l))
    # schemes
    ctx.spec('scheme', B_ + 'isActionRequired', 'returns | {contains(_requiredActions, arg0)}')
    ctx.spec('scheme', B_ + 'isActionFulfilled', 'returns | {contains(_fulfilledActions, arg0)}')
    ctx.spec('scheme', B_ + 'markActionFulfilled', 'call set::insert(_fulfilledActions, arg0)')
    ctx.spec('scheme', B_ + 'requireAction', 'call set::insert(_requiredActions, arg0)')
    ctx.spec('scheme', B_ + 'checkCompletenessRequiredActions', '''
        throws | %s
        call set::clear(_requiredActions)
        call set::clear(_fulfilledActions)
        ''' % MISS)
    for ph, x in (('firstExchange', 'exchangeFirstData'), ('secondExchange', 'exchangeSecondData')):
        ctx.spec('enforced', B_ + ph, '''
            throws? | %s
            a) call set::clear(_requiredActions)
            b) call set::clear(_fulfilledActions)
            c) call BaseCouplingScheme::%s(this()) | %s
            order a < c
            order b < c
            ''' % (MISS, x, WEND))
    f = ctx.fn(B_ + 'secondExchange')
    done = '(%s & {_hasConverged} & %s & %s)' % (IMP, WEND, GOING)
    ctx.spec('required', f, '''
        x) call BaseCouplingScheme::exchangeSecondData(this()) | %s
        r) call set::insert(*_requiredActions*, Action::ReadCheckpoint) | %s & %s & !{_hasConverged}
        w) call set::insert(*_requiredActions*, Action::WriteCheckpoint) | %s
        k) call set::clear(_requiredActions)
        none call set::insert(*_requiredActions*, Action::InitializeData)
        order k < x < r
        order x < w
        ''' % (WEND, IMP, WEND, done))
    ctx.spec('required', B_ + 'initialize', '''
        call set::insert(_requiredActions*, Action::WriteCheckpoint) | %s
        none call set::insert(*, Action::ReadCheckpoint)
        none call set::clear(_requiredActions*)
        ''' % IMP)
    ctx.spec('required', B_ + 'firstExchange', 'none call set::insert(_requiredActions*)')
    ctx.spec('required', B_ + 'determineInitialSend', '''
        store BaseCouplingScheme::_sendsInitializedData* = 1 | {any(arg0: elem(arg0).second.requiresInitialization)}
        call set::insert(_requiredActions, Action::InitializeData) | {any(arg0: elem(arg0).second.requiresInitialization)}
        ''')
    ctx.spec('required', B_ + 'determineInitialReceive', '''
        store BaseCouplingScheme::_receivesInitializedData* = 1 | {any(arg0: elem(arg0).second.requiresInitialization)}
        none call set::insert(_requiredActions*)
        ''')
    ctx.spec('required', 'precice::cplscheme::BiCouplingScheme::determineInitialDataExchange', '''
        call BaseCouplingScheme::determineInitialSend(this(), _sendData)
        call BaseCouplingScheme::determineInitialReceive(this(), _receiveData)
        ''')
    ctx.spec('required', 'precice::cplscheme::MultiCouplingScheme::determineInitialDataExchange', '''
        for _sendDataVector: call BaseCouplingScheme::determineInitialSend(this(), elem(_sendDataVector).second)
        for _receiveDataVector: call BaseCouplingScheme::determineInitialReceive(this(), elem(_receiveDataVector).second)
        ''')
    # composition: an action is required/fulfilled when it is for one of the schemes; marking reaches all
    ctx.spec('composition', C_ + 'isActionRequired', 'returns | {any(*: CouplingScheme::isActionRequired(elem(*), arg0))}')
    ctx.spec('composition', C_ + 'isActionFulfilled', 'returns | {any(*: CouplingScheme::isActionFulfilled(elem(*), arg0))}')
    ctx.spec('composition', C_ + 'markActionFulfilled', 'for *_activeSchemes*: call CouplingScheme::markActionFulfilled(elem(*), arg0) | {CouplingScheme::isActionRequired(elem(*), arg0)}')
    # nothing else changes the two sets
    own = {'requireAction', 'markActionFulfilled', 'checkCompletenessRequiredActions'}
    n = 0
    for F in ctx.P.funcs.values():
        if F.body is None or F.dep or not F.file.startswith('src/cplscheme/') or '/tests/' in F.file:
            continue
        m, _, _ = ctx.E.direct(F)
        h = {x for x in m if x.endswith(('::_requiredActions', '::_fulfilledActions'))}
        if h:
            n += 1
            ctx.ob('set ownership', '%s changes %s' % (short(F.d.q), ', '.join(sorted(x.split('::')[-1] for x in h))), F.d.n in own or F.d.q not in ctx.base or F.d.k == 'ctor', '%s:%s' % (F.file, F.line))
    ctx.need('functions changing the action sets', n, 3)


def roots_of(ctx, u):
    seen, st = set(), [u]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += list(ctx.E.rev.get(x, ()))
    return {ctx.P.funcs[x].d.q for x in seen if x in ctx.P.funcs}
