"""Interprocedural read/write (field) effect summaries and call graph."""
from facts import Program

NONCONST_STD_READ = {'begin', 'end', 'front', 'back', 'at', 'operator[]', 'data', 'find', 'get', 'operator->',
                     'operator*', 'value', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'equal_range', 'row', 'col',
                     'operator()', 'segment', 'block', 'array', 'matrix', 'cols', 'rows', 'middleRows', 'middleCols',
                     'head', 'tail', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'transpose', 'reshaped',
                     'transformed', 'derived', 'colwise', 'rowwise', 'operator bool', 'use_count', 'lock', 'noalias',
                     'swap_', 'nonZeros', 'data_', 'size', 'empty', 'wholeMatrix'}


def ext_read(D):
    """non-const member of an external type that only gives access"""
    return D.n in NONCONST_STD_READ and not (D.n == 'operator()' and not D.q.startswith('Eigen::'))


def walk(n):
    """all dict nodes of a subtree, pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)


QUIET = ('ASSERT', 'DEBUG', 'TRACE', 'INFO', 'WARN')


def walkx(n, tu):
    """like walk, without statements of the diagnostic macros and without message formatting"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('m') in QUIET:
                continue
            if x.get('k') == 'call' and 'd' in x:
                q = tu.decls[x['d']].q
                if q == 'precice::utils::format_or_error' or q.startswith('precice::logging::') or q.startswith('fmt::') and not q.startswith(('fmt::print', 'fmt::format')):
                    continue
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)


def is_getter(P, F):
    """function whose body only returns a member (possibly through pointers): the field decl, else None"""
    c = getattr(P, '_getter', None)
    if c is None:
        c = P._getter = {}
    if F.d.u in c:
        return c[F.d.u]
    r = None
    b = F.body
    if b and b['k'] == 'blk':
        ss = [s for s in b['s'] if s and s.get('m') not in ('ASSERT', 'DEBUG', 'TRACE') and s['k'] != 'null' and not is_noop(s)]
        if len(ss) == 1 and ss[0]['k'] == 'ret' and ss[0].get('e'):
            e = strip(ss[0]['e'], F.tu)
            if e['k'] == 'mem':
                base = e['b']
                if base['k'] == 'this':
                    r = F.tu.decls[e['d']]
    c[F.d.u] = r
    return r


def is_noop(s):
    if s['k'] == 'e':
        e = s['e']
        if e['k'] == 'cast' and e['a'][0]['k'] in ('int', 'var', 'bool'):
            return True
        if e['k'] in ('int', 'var', 'bool', 'mem', 'enum'):
            return True
    return False


def strip(e, tu):
    while True:
        if e['k'] == 'ctor' and len(e.get('a', [])) == 1 and 'd' in e and tu.decls[e['d']].cm:
            e = e['a'][0]
        elif e['k'] in ('cast', 'defarg', 'definit'):
            e = e['a'][0]
        elif e['k'] == 'un' and e['op'] in ('*', '&'):
            e = e['a'][0]
        elif e['k'] == 'call' and e.get('o') is not None and 'd' in e and tu.decls[e['d']].n in ('operator->', 'operator*', 'get', 'value') \
                and not (tu.decls[e['d']].f):
            e = e['o']
        elif e['k'] == 'call' and 'd' in e and tu.decls[e['d']].q in ('std::move', 'std::forward', 'std::as_const') and e['a']:
            e = e['a'][0]
        else:
            return e


class Effects:
    def __init__(self, P):
        self.P = P
        self.mod = {}
        self.ref = {}
        self.calls = {}
        for u, F in P.funcs.items():
            m, r, c = self.direct(F)
            self.mod[u], self.ref[u], self.calls[u] = m, r, c
        # transitive closure (worklist over reverse call graph)
        rev = {}
        for u, cs in self.calls.items():
            for c in cs:
                rev.setdefault(c, set()).add(u)
        self.rev = rev
        # calls whose receiver is always a local object of the caller: own fields written there are no effect
        own = {}
        for u, F in P.funcs.items():
            own[u] = self.local_receivers(F)
        work = list(P.funcs)
        inw = set(work)
        while work:
            u = work.pop()
            inw.discard(u)
            for p in rev.get(u, ()):
                b = len(self.mod[p]) + len(self.ref[p])
                x = own[p].get(u)
                self.mod[p] |= {m for m in self.mod[u] if m.rsplit('::', 1)[0] != x} if x else self.mod[u]
                self.ref[p] |= self.ref[u]
                if len(self.mod[p]) + len(self.ref[p]) != b and p not in inw:
                    work.append(p)
                    inw.add(p)

    def local_receivers(self, F):
        tu = F.tu
        good, bad = {}, set()
        for n in walkx([F.body, [i['e'] for i in F.inits]], tu):
            k = n.get('k')
            if k not in ('call', 'ctor', 'fn') or 'd' not in n:
                continue
            D = tu.decls[n['d']]
            o = n.get('o')
            loc = None
            if k == 'call' and o is not None and not D.v:
                while o['k'] == 'cast' and o['a']:
                    o = o['a'][0]
                if o['k'] == 'var':
                    V = tu.decls[o['d']]
                    if V.k in ('var', 'par', 'local', 'param') and V.t and not V.t.endswith(('&', '*')) and '::shared_ptr' not in V.t and not getattr(V, 'st', 0):
                        loc = D.q.rsplit('::', 1)[0]
            if loc:
                good[D.u] = loc
            else:
                bad.add(D.u)
        return {u: c for u, c in good.items() if u not in bad}

    def targets(self, D):
        """possible bodies for a call to declaration D"""
        r = [D.u]
        if D.v:
            r += list(self.P.overriders.get(D.u, ()))
        return [u for u in r if u in self.P.funcs]

    def aliases(self, F):
        """locals of F which refer to something else: declaration index -> expressions they may stand for"""
        al = {}
        tu = F.tu
        for n in walk([F.body]):
            k = n.get('k')
            if k == 'decl':
                for v in n.get('v', ()):
                    i = v.get('i')
                    if i is None or 'd' not in v:
                        continue
                    t = tu.types[v['t']] if 't' in v else ''
                    if t.endswith(('&', '*')) and not t.startswith('const ') or v.get('ref') or 'const_iterator' not in t and any(x in t for x in ('iterator', 'Eigen::Map<', 'Eigen::Block<', 'Eigen::Ref<', 'VectorBlock<')):
                        al.setdefault(v['d'], []).append(i)
            elif k == 'rfor' and 'd' in n.get('v', {}):
                t = tu.types[n['v']['t']] if 't' in n['v'] else ''
                if n['v'].get('ref') or t.endswith(('&', '*')):
                    al.setdefault(n['v']['d'], []).append(n['r'])
        return al

    def lfields(self, e, tu, al, depth=0):
        """the fields which may be written when e is assigned or mutated, through references, pointers and iterators kept in locals"""
        f, x = self.lfield(e, tu, True)
        if f is not None:
            return [f]
        if x is None or depth > 6:
            return []
        if x['k'] == 'var':
            return [g for i in al.get(x['d'], ()) for g in self.lfields(i, tu, al, depth + 1)]
        if x['k'] in ('init', 'ctor') or x['k'] == 'call' and x.get('o') is None:
            return [g for i in x.get('a', ()) for g in self.lfields(i, tu, al, depth + 1)]
        return []

    def lfield(self, e, tu, rest=False):
        """field decl written when e is assigned/mutated, or None"""
        f, x = self._lfield(e, tu)
        return (f, x) if rest else f

    def _lfield(self, e, tu):
        while True:
            e = strip(e, tu)
            k = e['k']
            if k == 'mem':
                return tu.decls[e['d']], None
            if k == 'idx':
                e = e['a'][0]
            elif k == 'call':
                D = tu.decls[e['d']] if 'd' in e else None
                if D is not None and D.u in self.P.funcs:
                    g = is_getter(self.P, self.P.funcs[D.u])
                    return g, None
                if e.get('o') is not None:
                    e = e['o']
                elif e.get('a') and D is not None and not D.f:
                    e = e['a'][0]
                else:
                    return None, e
            elif k == 'cond':
                e = e['a'][1]
            else:
                return None, e

    def direct(self, F):
        return self.direct_node([F.body, [i['e'] for i in F.inits]], F.tu, F)

    def direct_node(self, node, tu, F=None):
        P = self.P
        mod, ref, calls = set(), set(), set()
        al = self.aliases(F) if F is not None else {}
        for n in walkx(node, tu):
            k = n.get('k')
            if k == 'mem':
                ref.add(tu.decls[n['d']].q)
            elif k == 'asg' or (k == 'un' and n['op'] in ('++', '--', '++post', '--post')):
                x = n['a'][0]
                if x['k'] == 'var' and not tu.decls[x['d']].t.endswith('&'):
                    continue  # the local itself changes, not what it refers to
                for f in self.lfields(x, tu, al):
                    mod.add(f.q)
            elif k == 'delete':
                pass
            elif k in ('call', 'ctor') and 'd' in n:
                D = tu.decls[n['d']]
                ts = self.targets(D)
                calls.update(ts)
                if not ts or D.v:
                    pass
                if k == 'call' and n.get('o') is not None and not D.cst and not D.st:
                    # non-const member call: external type => writes the field it is called on
                    if D.u not in P.funcs and not D.f:
                        if not ext_read(D):
                            for f in self.lfields(n['o'], tu, al):
                                mod.add(f.q)
                if D.u not in P.funcs or not P.funcs[D.u].body:
                    for i, a in enumerate(n.get('a', [])):
                        if i < len(D.ps):
                            t = D.ps[i]
                            if (t.endswith('&') or t.endswith('*')) and not t.startswith('const ') and not t.endswith('&&'):
                                for f in self.lfields(a, tu, al):
                                  if not D.q.startswith(('std::move', 'std::forward', 'std::begin', 'std::end', 'std::get')):
                                    mod.add(f.q)
                else:
                    # by-ref parameter of a project function: assume written when non-const reference
                    for i, a in enumerate(n.get('a', [])):
                        if i < len(D.ps):
                            t = D.ps[i]
                            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                                for f in self.lfields(a, tu, al):
                                  if f.t and not f.t.endswith('*'):
                                    mod.add(f.q)
            elif k == 'fn' and 'd' in n:
                D = tu.decls[n['d']]
                calls.update(self.targets(D))
        return mod, ref, calls

    def mod_node(self, node, tu):
        m, r, c = self.direct_node(node, tu)
        m = set(m)
        for u in c:
            m |= self.mod.get(u, set())
        return m

    def mod_call(self, D):
        s = set()
        for u in self.targets(D):
            s |= self.mod[u]
        return s

    def ref_call(self, D):
        s = set()
        for u in self.targets(D):
            s |= self.ref[u]
        return s

    def reach(self, roots):
        seen, st = set(), list(roots)
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            st += list(self.calls.get(u, ()))
        return seen
