"""Typestate of asynchronous communication requests: created -> waited, with the buffer kept alive and untouched in between."""
import effects

GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'clear', 'assign', 'erase', 'operator=', 'swap', 'pop_back', 'push_front', 'emplace_front', 'shrink_to_fit', 'conservativeResize'}
HOLD = {'push_back', 'emplace_back', 'operator=', 'insert', 'emplace', 'push_front', 'emplace_front', 'operator+='}
LAST = ('end', 'begin')


def creates(D):
    t = D.t or ''
    return (('PtrRequest' in t or 'shared_ptr<precice::com::Request>' in t or 'shared_ptr<Request>' in t) and 'vector' not in t and not t.endswith('&') and D.k not in ('ctor', 'local', 'param', 'field')
            and not D.n.startswith('operator') and D.n not in ('make_shared', 'move', 'make_unique'))


class Flow:
    def __init__(self, ctx, F, depth=0):
        self.ctx, self.F, self.tu = ctx, F, F.tu
        self.viol = []
        self.sites = {}
        self.held = set()                   # members that own requests at exit
        self.alias = {}                     # reference variables and iterators -> root
        self.reserved = {}
        self.loops = []                     # roots of the ranges of the loops around
        self.elems = set()                  # loop variables
        self.params = {}
        self.into = {}                      # parameter index -> sites created into it
        self.waits = set()                  # parameter indices waited for
        self.depth = depth
        self.carry = []                     # guards that imply another iteration of the loop around
        self.new = 0
        for i, p in enumerate(F.params):
            self.params[p.u] = i
        self.ret = []
        self.bodies = []
        out = self.stmt(F.body, frozenset())
        if out is not None:
            self.exit(out, F.line)

    # -- names --
    def root(self, e):
        """the variable or member at the root of an access path"""
        tu = self.tu
        while e:
            k = e['k']
            if k == 'var':
                D = tu.decls[e['d']]
                return self.alias.get(D.u, ('v', D.u, D.n))
            if k == 'mem':
                D = tu.decls[e['d']]
                if e['b'] and e['b']['k'] == 'this':
                    return ('m', D.q, D.n)
                r = self.root(e['b'])
                if r and r[0] == 'v':
                    return ('v', r[1], r[2])
                return ('m', D.q, D.n)
            if k == 'call':
                if e.get('o') is not None and e['o'].get('k') != 'this':
                    e = e['o']
                elif e.get('a'):
                    e = e['a'][0]
                else:
                    return None
            elif k in ('un', 'idx', 'cast', 'cond', 'defarg'):
                e = e['a'][0] if 'a' in e else e.get('e')
            elif k == 'ctor':
                if len(e['a']) >= 1:
                    e = e['a'][0]
                else:
                    return None
            elif k == 'init' and e.get('a'):
                e = e['a'][0]
            else:
                return None
        return None

    def field(self, e):
        """member through which an element is reached: mapping.request -> 'request'"""
        if e and e['k'] == 'mem':
            return ('m', self.tu.decls[e['d']].q, self.tu.decls[e['d']].n)
        return self.root(e)

    def temporary(self, e):
        """the buffer argument does not refer to an object that outlives the statement"""
        tu = self.tu
        while True:
            k = e['k']
            if k in ('var', 'mem', 'this', 'idx'):
                return False
            if k == 'un' and e['op'] in ('*', '&'):
                return False
            if k in ('cast', 'defarg'):
                e = e['a'][0] if 'a' in e else e.get('e')
                if e is None:
                    return False
            elif k == 'ctor':
                t = tu.types[e['t']] if 't' in e and isinstance(e['t'], int) else ''
                if 'span' in t and e['a']:
                    e = e['a'][0]
                else:
                    return bool(t)
            elif k == 'init' and e.get('a'):
                e = e['a'][0]
            elif k == 'call':
                if 'd' not in e:
                    return False
                D = tu.decls[e['d']]
                ref = D.t.endswith(('&', '*', 'reference'))
                if ref or 'span' in D.t or D.k == 'conv':
                    n = e.get('o') if e.get('o') is not None and not D.n == 'refToSpan' else (e['a'][0] if e.get('a') else None)
                    if n is None or n['k'] == 'this':
                        return False
                    if ref:
                        return False
                    e = n
                    continue
                return True
            elif k in ('int', 'float', 'bool', 'bin', 'str', 'char', 'sizeof', 'zero', 'cond'):
                return k != 'cond'
            else:
                return False

    # -- events --
    def bad(self, line, text):
        self.viol.append((line, text))

    def exit(self, S, line):
        for site, h, b, k in S or ():
            if h[0] == 'm':
                self.held.add((h[1], site))
            elif h[0] == 'v' and h[1] in self.params:
                self.into.setdefault(self.params[h[1]], set()).add(site)
            elif h[0] == 'r':
                pass
            else:
                self.bad(site, 'request created at line %s is not waited for before the function ends (held by %s)' % (site, h[2]))

    def kill(self, S, h):
        return frozenset(p for p in S if p[1][:2] != h[:2]) if h else S

    def touch(self, S, r, line, what):
        if r:
            for site, h, b, k in S:
                if b and b[:2] == r[:2]:
                    self.bad(line, 'the buffer %s of the request created at line %s is %s before the request is waited for' % (r[2], site, what))

    def summary(self, D):
        if self.depth > 2 or D.u not in self.ctx.P.funcs:
            return None
        F = self.ctx.P.funcs[D.u]
        c = self.ctx.__dict__.setdefault('_reqsum', {})
        if D.u not in c:
            c[D.u] = None
            if F.body and any(('Request' in (p.t or '')) for p in F.params):
                c[D.u] = Flow(self.ctx, F, self.depth + 1)
        return c[D.u]

    def expr(self, e, S, holder=None):
        """evaluate; holder: where the value of e goes"""
        tu = self.tu
        if e is None:
            return S
        if isinstance(e, list):
            for x in e:
                S = self.expr(x, S)
            return S
        if not isinstance(e, dict) or 'k' not in e or e.get('m') in effects.QUIET:
            return S
        k = e['k']
        if k == 'lambda':
            return self.stmt(e['body'], S)
        if k == 'asg':
            S = self.expr(e['a'][1], S, self.field(e['a'][0]))
            r = self.root(e['a'][0])
            self.touch(S, r, e.get('l'), 'assigned')
            return S
        if k in ('cast', 'defarg') or k == 'ctor' and len(e.get('a', [])) == 1:
            for x in (e.get('a') or [e.get('e')]):
                S = self.expr(x, S, holder)
            return S
        if k != 'call' or 'd' not in e:
            for v in e.values():
                if isinstance(v, (dict, list)):
                    S = self.expr(v, S)
            return S
        D = tu.decls[e['d']]
        o, args = e.get('o'), e.get('a', [])
        # waiting
        if D.n == 'wait' and 'Request' in D.q:
            if o is not None and not (D.ps and 'vector' in D.ps[0]):
                h = self.field(self.deref(o))
                for hh in (h, self.root(o)):
                    S = self.kill(S, hh)
                    if hh and hh[0] == 'v' and hh[1] in self.params:
                        self.waits.add(self.params[hh[1]])
            else:
                h = self.root(args[0])
                S = self.kill(S, h)
                if h and h[0] == 'v' and h[1] in self.params:
                    self.waits.add(self.params[h[1]])
            return S
        # containers of requests
        if D.n in HOLD and o is not None and any(self.mentions(a, S) or self.makes(a) for a in args):
            h = self.field(self.deref(o)) if D.n == 'operator=' else self.root(o)
            if D.n == 'operator=' and o['k'] in ('var', 'mem') and o['k'] == 'var':
                for p in S:
                    if p[1][:2] == h[:2]:
                        self.bad(e.get('l'), 'the request created at line %s is overwritten before it is waited for' % p[0])
            for a in args:
                S = self.expr(a, S, h)
                S = self.move(a, S, h)
            return S
        # creation
        if creates(D):
            for a in args:
                S = self.expr(a, S)
            if args and D.n.startswith('a'):
                b = args[0]
                if self.temporary(b):
                    self.bad(e.get('l'), 'the buffer handed to %s is a temporary' % D.n)
                root = self.root(b)
                ev = [tu.decls[x['d']].u for x in effects.walkx(b, tu) if x.get('k') == 'var' and tu.decls[x['d']].u in self.elems]
                if root and ev:
                    root = root[:3] + (ev[-1],)
            else:
                root = None
            self.sites[e.get('l')] = D.n
            if holder is None:
                self.bad(e.get('l'), 'the request returned by %s is dropped' % D.n)
                return S
            return S | {(e.get('l'), holder, root, D.n + ('+' if self.new else ''))}
        for a in ([o] if o is not None else []) + args:
            S = self.expr(a, S)
        sm = self.summary(D)
        if sm:
            for i, a in enumerate(args):
                if i in sm.waits:
                    S = self.kill(S, self.root(a))
                if i in sm.into:
                    for site in sm.into[i]:
                        for j, b in enumerate(args):
                            if j != i:
                                S = S | {(e.get('l'), self.root(a) or ('v', '?', '?'), self.root(b), 'call')}
        # changes of buffers
        if o is not None and D.n in GROW and not (D.n in ('push_back', 'emplace_back') and self.loops and self.reserved.get((self.root(o) or ())[:2]) == self.loops[-1]):
            self.touch(S, self.root(o), e.get('l'), 'changed by ' + D.n)
        if D.n == 'reserve' and o is not None and self.root(o):
            sz = [self.root(x['o']) for x in effects.walkx(args, tu) if x.get('k') == 'call' and 'd' in x and tu.decls[x['d']].n == 'size' and x.get('o') is not None]
            self.reserved[self.root(o)[:2]] = sz[0][:2] if len(sz) == 1 and sz[0] else None
        return S

    def deref(self, o):
        while o and o['k'] == 'call' and o.get('op') in ('->', '*') and o.get('o') is not None:
            o = o['o']
        return o

    def makes(self, e):
        return any(x.get('k') == 'call' and 'd' in x and creates(self.tu.decls[x['d']]) for x in effects.walkx(e, self.tu))

    def mentions(self, e, S):
        hs = {p[1][:2] for p in S}
        return any(x.get('k') == 'var' and ('v', self.tu.decls[x['d']].u) in hs for x in effects.walkx(e, self.tu))

    def move(self, e, S, h):
        """the request held by a variable mentioned in e is now held by h"""
        vs = {('v', self.tu.decls[x['d']].u) for x in effects.walkx(e, self.tu) if x.get('k') == 'var'}
        return frozenset((p[0], h, p[2], p[3]) if p[1][:2] in vs else p for p in S)

    # -- statements --
    def stmt(self, s, S):
        tu = self.tu
        if s is None or s.get('m') in effects.QUIET:
            return S
        k = s['k']
        if k == 'blk':
            decl = []
            for x in s['s']:
                if x and x['k'] == 'decl':
                    decl += [tu.decls[v['d']] for v in x['v']]
                S = self.stmt(x, S)
                if S is None:
                    return None
            out = set()
            for D in decl:
                for p in S:
                    if p[2] and p[2][:2] == ('v', D.u) and 'shared_ptr' not in D.t:
                        self.bad(p[0], 'the buffer %s of the request created at line %s goes out of scope before the request is waited for' % (D.n, p[0]))
            ds = {('v', D.u): D for D in decl}
            S = frozenset((p[0], p[1], ('o', None, p[2][2]), p[3]) if p[2] and p[2][:2] in ds and 'shared_ptr' in ds[p[2][:2]].t and p[1][:2] not in ds else p for p in S)
            for p in S:
                if p[1][:2] in ds and p[1][:2] not in self.keep(s):
                    self.bad(p[0], 'the request created at line %s is not waited for before %s goes out of scope' % (p[0], p[1][2]))
                else:
                    out.add(p)
            return frozenset(out)
        if k == 'decl':
            for v in s['v']:
                D = tu.decls[v['d']]
                i = v.get('i')
                if i is None:
                    continue
                if D.t.endswith('&') or 'span' in D.t or D.t.endswith('*'):
                    S = self.expr(i, S)
                    r = self.root(i)
                    if r:
                        self.alias[D.u] = r
                    continue
                S = self.expr(i, S, ('v', D.u, D.n))
                if 'Request' in D.t and not self.makes(i):
                    S = self.move(i, S, ('v', D.u, D.n))
            return S
        if k == 'e':
            return self.expr(s['e'], S)
        if k == 'ret':
            if s.get('e'):
                S = self.expr(s['e'], S, ('r', 'return', 'return value'))
                vs = {('v', tu.decls[x['d']].u) for x in effects.walkx(s['e'], tu) if x.get('k') == 'var'}
                S = frozenset(p for p in S if p[1][:2] not in vs)
            self.exit(S, s['l'])
            return None
        if k == 'if':
            if s.get('init'):
                S = self.stmt(s['init'], S)
            S = self.expr(s['c'], S)
            tested = {self.field(x) for x in effects.walkx(s['c'], tu) if x.get('k') in ('var', 'mem')}
            car = self.shape(s['c']) in self.carry
            self.new += car
            a = self.stmt(s['th'], S)
            self.new -= car
            b = self.stmt(s['el'], S) if s.get('el') else S
            if s.get('th') and not s.get('el'):     # 'if (r) r->wait()': nothing is pending when r is null
                for h in tested:
                    if h and a is not None and any(p[1][:2] == h[:2] for p in S) and not any(p[1][:2] == h[:2] for p in a):
                        b = self.kill(b, h)
            return b if a is None else a if b is None else a | b
        if k in ('for', 'while', 'do', 'rfor'):
            if s.get('init'):
                S = self.stmt(s['init'], S)
            if k == 'rfor':
                S = self.expr(s['r'], S)
                D = tu.decls[s['v']['d']]
                r = self.root(s['r'])
                if r:
                    self.alias[D.u] = r
                self.elems.add(D.u)
            elif k == 'for' and s.get('init') and s['init']['k'] == 'decl':
                for v in s['init']['v']:
                    i = v.get('i')
                    if i and i['k'] == 'call' and 'd' in i and tu.decls[i['d']].n in ('begin', 'cbegin', 'rbegin'):
                        self.alias[tu.decls[v['d']].u] = self.root(i)
            last = None
            cur = S
            guard, once = self.counted(s)
            self.carry.append(guard)
            self.loops.append((self.root(s['r']) or (None, None))[:2] if k == 'rfor' else None)
            var = tu.decls[s['v']['d']].u if k == 'rfor' else None
            fin = None
            for _ in range(5):
                x = self.expr(s['c'], cur) if s.get('c') and k != 'do' else cur
                y = self.stmt(s['b'], x)
                if y is not None and s.get('inc'):
                    y = self.expr(s['inc'], y)
                if y is not None and k == 'do':
                    y = self.expr(s['c'], y)
                if y is None:
                    break
                if once and _ == 0:
                    cur = frozenset()
                yx = frozenset(p for p in y if not p[3].endswith('+'))      # what may be left when the loop ends
                fin = yx if fin is None else fin | yx
                n = cur | frozenset((p[0], p[1], ('o', None, p[2][2]) if p[2] and len(p[2]) == 4 and p[2][3] == var else p[2], p[3].rstrip('+')) for p in y)
                if self.waitloop(s) or k == 'do':
                    last = y
                if n == cur:
                    break
                cur = n
            self.carry.pop()
            self.loops.pop()
            if self.waitloop(s) and last is not None:
                return last
            return cur if fin is None else fin if once else S | fin
        if k == 'switch':
            return S | (self.stmt(s['b'], S) or S)
        if k in ('case', 'default'):
            return self.stmt(s['b'], S)
        if k == 'try':
            S2 = self.stmt(s['b'], S)
            return S2
        return S

    def shape(self, e):
        if isinstance(e, list):
            return '[' + ','.join(map(self.shape, e)) + ']'
        if not isinstance(e, dict):
            return str(e)
        return '{' + ','.join('%s:%s' % (k, self.tu.decls[v].u if k == 'd' else self.shape(v)) for k, v in sorted(e.items()) if k not in ('l', 'le', 't')) + '}'

    def counted(self, s):
        """for (v = a; v < N; ++v): the condition v < N - 1, under which another iteration follows; whether the loop runs over the ranks of a parallel participant (at least two)"""
        c = s.get('c')
        if s['k'] != 'for' or not c or c.get('k') != 'bin' or c.get('op') != '<':
            return None, False
        v, N = c['a']
        g = self.shape({'k': 'bin', 'op': '<', 'a': [v, {'k': 'bin', 'op': '-', 'a': [N, {'k': 'int', 'v': 1}]}]})
        i = s.get('init') or {}
        start = i['v'][0].get('i') if i.get('k') == 'decl' and len(i['v']) == 1 else None
        once = N.get('k') == 'call' and 'd' in N and self.tu.decls[N['d']].q == 'precice::utils::IntraComm::getSize' and start is not None and start.get('k') == 'int' and str(start.get('v')) in ('0', '1')
        return g, once

    def keep(self, s):
        return ()

    def waitloop(self, s):
        """a loop over all requests of a container (or all elements they belong to) that waits for each: nothing is pending in it afterwards"""
        b = s['b']
        tops = b['s'] if b and b['k'] == 'blk' else [b]
        for t in tops:
            if not t:
                continue
            if t['k'] == 'if' and not t.get('el'):
                tt = t['th']
                if tt and tt['k'] == 'blk' and len(tt['s']) == 1:
                    tt = tt['s'][0]
                t = tt
            if t and t['k'] == 'e' and t['e'].get('k') == 'call' and 'd' in t['e'] and self.tu.decls[t['e']['d']].n == 'wait':
                if s['k'] == 'rfor':
                    return True
                if s['k'] == 'for' and s.get('c') and any(x.get('k') == 'call' and 'd' in x and self.tu.decls[x['d']].n in ('size', 'end', 'cend') for x in effects.walkx(s['c'], self.tu)):
                    return True
        return False


def analyse(ctx, F):
    fl = Flow(ctx, F)
    return fl
