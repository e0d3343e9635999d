"""Lock discipline: fields of a class that may only be accessed with a mutex of the object held."""
import effects

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')


def mentions(n, tu, fields):
    return any(x['k'] == 'mem' and tu.decls[x['d']].q in fields for x in effects.walkx(n, tu) if 'k' in x)


def scan(F, fields, mutex):
    """[(what, line, kind)] of accesses ('f') and calls ('c', usr) made without the lock"""
    tu = F.tu
    out = []
    later = [0]

    def exprs(n, held):
        """expressions: lambdas run later, without the lock, unless they are the predicate of a wait"""
        if isinstance(n, list):
            for x in n:
                exprs(x, held)
            return
        if not isinstance(n, dict) or n.get('m') in effects.QUIET:
            return
        k = n.get('k')
        if k == 'lambda':
            later[0] += 1
            stmt(n['body'], False)
            later[0] -= 1
            return
        if k == 'call' and 'd' in n:
            D = tu.decls[n['d']]
            if D.q.startswith('std::condition_variable') and D.n.startswith('wait'):
                exprs(n.get('o'), held)
                for a in n.get('a', []):
                    if a and a.get('k') == 'lambda':
                        stmt(a['body'], held)
                    else:
                        exprs(a, held)
                return
            if not held:
                out.append(('lc' if later[0] else 'c', D.u, n.get('l')))
        if k == 'mem' and not held and tu.decls[n['d']].q in fields:
            out.append(('lf' if later[0] else 'f', tu.decls[n['d']].n, n.get('l')))
        for v in n.values():
            if isinstance(v, (dict, list)):
                exprs(v, held)

    def locks(s):
        if s['k'] == 'decl':
            for v in s['v']:
                i = v.get('i')
                if i and i.get('k') == 'ctor' and tu.decls[i['d']].q.startswith(GUARDS):
                    if any(x['k'] == 'mem' and tu.decls[x['d']].q == mutex for a in i['a'] for x in effects.walkx(a, tu) if 'k' in x) \
                            and not any(x['k'] == 'var' and tu.decls[x['d']].n == 'defer_lock' for a in i['a'] for x in effects.walkx(a, tu) if 'k' in x):
                        return True
        if s['k'] == 'e' and s['e'].get('k') == 'call' and 'd' in s['e']:
            D = tu.decls[s['e']['d']]
            o = s['e'].get('o')
            if D.n in ('lock', 'unlock') and o is not None and (D.q.startswith(GUARDS) or mentions(o, tu, {mutex})):
                return D.n == 'lock'
        return None

    def stmt(s, held):
        if isinstance(s, list):
            for x in s:
                stmt(x, held)
            return
        if not isinstance(s, dict) or s.get('m') in effects.QUIET:
            return
        if s.get('k') == 'blk':
            for x in s['s']:
                if not x:
                    continue
                r = locks(x) if x.get('k') in ('decl', 'e') else None
                if r is not None:
                    held = r
                    continue
                stmt(x, held)
            return
        if s.get('k') in ('decl', 'e', 'ret'):
            exprs(s, held)
            return
        for v in s.values():
            if isinstance(v, list):
                for x in v:
                    (stmt if isinstance(x, dict) and x.get('k') in ('blk', 'if', 'for', 'while', 'do', 'rfor', 'e', 'ret', 'decl', 'try', 'switch') else exprs)(x, held)
            elif isinstance(v, dict):
                (stmt if v.get('k') in ('blk', 'if', 'for', 'while', 'do', 'rfor', 'e', 'ret', 'decl', 'try', 'switch') else exprs)(v, held)

    if F.body:
        stmt(F.body, False)
    return out


def discipline(ctx, rule, cls, fields, mutex):
    """every access to the fields holds the mutex: directly, or in a function that is only called with the mutex held"""
    P = ctx.P
    fields = {cls + '::' + f for f in fields}
    mutex = cls + '::' + mutex
    own = [F for F in P.funcs.values() if F.body and (F.d.q.startswith(cls + '::') or mentions(F.body, F.tu, fields))]
    name = cls.rsplit('::', 1)[1]
    own = [F for F in own if F.d.n not in (name, '~' + name)]
    found = {F.d.u: scan(F, fields, mutex) for F in own}
    byu = {F.d.u: F for F in own}
    bad = {u: [(w, l) for k, w, l in v if k == 'f'] for u, v in found.items()}
    req = {u for u, v in bad.items() if v}
    while True:
        more = {u for u, v in found.items() if u not in req and any(k == 'c' and w in req for k, w, l in v)}
        if not more:
            break
        req |= more
    n = 0
    for F in own:
        acc = mentions(F.body, F.tu, fields)
        if not acc and F.d.u not in req:
            continue
        n += 1
        ok, why = True, ''
        w = [(w, l) for k, w, l in found[F.d.u] if k == 'lf'] + [(byu[w].d.n + '()', l) for k, w, l in found[F.d.u] if k == 'lc' and w in req]
        if w:
            ok, why = False, 'a handler that runs later uses, without %s: %s' % (mutex.rsplit('::', 1)[1], ', '.join('%s at line %s' % x for x in w[:4]))
        elif F.d.u in req:
            callers = [c for c in ctx.E.rev.get(F.d.u, ()) if c != F.d.u]
            if not callers or any(c not in byu for c in callers):
                ok = False
                w = bad.get(F.d.u) or [(byu[x].d.n + '()', l) for k, x, l in found[F.d.u] if k == 'c' and x in req]
                why = 'used without %s: %s' % (mutex.rsplit('::', 1)[1], ', '.join('%s at line %s' % x for x in w[:4]))
        ctx.ob(rule, '%s: access to %s only with %s held' % (F.d.q, '/'.join(sorted(f.rsplit('::', 1)[1] for f in fields)), mutex.rsplit('::', 1)[1]), ok, '%s:%s' % (F.file, F.line), why)
    return n
