"""Query layer: rules stated over the gated events of gssa, obligations and reporting."""
import re, os, sys, json, time, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, gssa, effects
from facts import AnalysisError
from gssa import T, subterms

NOISE_CLASSES = ('precice::logging::', 'precice::profiling::')


def short(q, n=2):
    # drop template arguments before splitting
    out, depth = '', 0
    for ch in q:
        if ch == '<' and not out.endswith('operator') and not out.endswith('operator<'):
            depth += 1
        elif ch == '>' and depth:
            depth -= 1
        elif not depth:
            out += ch
    return '::'.join(out.split('::')[-n:])


class Norm:
    given = None        # condition under which terms are written down (Fn.given)

    """stable text of terms: no stamps, loop numbers or declaration ids"""

    def __init__(self, A):
        self.A = A
        self.memo = {}
        self.busy = {}
        self.dist = {}                  # loop -> nesting distance from the effect being shown
        self.memos = {(): self.memo}
        self.names = {}                 # local variable (declaration id) -> name given by a rule
        self.outs = {}                  # (event, argument) -> name

    def bind(self, name, t):
        """give the local variable behind a term a name; False when there is none or it is another one"""
        u = self.base(t)
        if u is None:
            return False
        (self.outs if isinstance(u, tuple) else self.names)[u] = '$' + name
        self.reset()
        return True

    def reset(self):
        self.memo = {}
        self.memos = {(): self.memo}
        self.dist = {}

    def base(self, t):
        while isinstance(t, T):
            if t.k == 'lv':
                return str(t.a[1][1]) if isinstance(t.a[1], tuple) else str(t.a[1])
            if t.k in ('phi', 'lout'):
                return t.a[2]
            if t.k == 'out':
                return (t.a[1], t.a[2])
            if t.k in ('idx', 'begin', 'end', 'elem', 'upd', 'fld', 'size', 'at'):
                t = t.a[1]
            elif t.k == 'ctor' and 'span' in t.a[1] and t.a[2]:
                t = t.a[2][0]
            elif t.k == 'ite':
                a, b = self.base(t.a[2]), self.base(t.a[3])
                return a if a == b else None
            else:
                return None
        return None

    def within(self, loops):
        """the counters of outer loops are shown as iv1, iv2, ... (distance from the innermost loop)"""
        self.dist = {L.id: i for i, L in enumerate(reversed(loops))} if len(loops) > 1 else {}
        self.memo = self.memos.setdefault(tuple(self.dist), {})

    def iv(self, lid):
        i = self.dist.get(lid, 0)
        return 'iv%d' % i if i else 'iv'

    def __call__(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return '(' + ', '.join(self(x) for x in t) + ')'
            return str(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self.go(t)
            self.memo[t.id] = r
        return r

    def go(self, t):
        a, k, n = t.a, t.k, self
        if k == 'fld':
            b = a[1]
            nm = a[2].split('::')[-1]
            if b.k == 'this':
                return nm
            if b.k == 'static':
                return short(a[2], 2)
            return '%s.%s' % (n(b), nm)
        if k == 'par':
            return 'arg%d' % a[1]
        if k in ('int', 'bool', 'flt', 'char'):
            return str(a[1])
        if k == 'str':
            return '"%s"' % a[1]
        if k == 'enum':
            return '::'.join(a[1].split('::')[-2:])
        if k == 'call':
            return '%s(%s)' % (short(a[1]), ', '.join(map(n, a[2])))
        if k == 'op':
            if len(a) == 4:
                return '(%s %s %s)' % (n(a[2]), a[1], n(a[3]))
            return '%s(%s)' % (a[1], ', '.join(map(n, a[2:])))
        if k == 'poly':
            return '+'.join(sorted('%s%s' % ('' if c == 1 else '%s*' % c, '*'.join(sorted(map(n, m))) or '1') for m, c in a[1]))
        if k == 'elem':
            r = n(a[1])
            return self.iv(a[2]) if r.startswith('boost::irange(') else 'elem(%s)' % r
        if k == 'iv':
            return self.iv(a[1])
        if k == 'phi':
            return self.names.get(a[2], 'phi')
        if k == 'lout':
            if a[2] in self.names:
                return self.names[a[2]]
            return 'lout(%s, %s)' % (n(a[3]), n(a[4]))
        if k == 'out':
            if self.outs and (a[1], a[2]) in self.outs:
                return self.outs[(a[1], a[2])]
            return 'out(%s)' % (short(a[3]) if len(a) > 3 else '')
        if k == 'lv':
            if self.names:
                nm = self.names.get(str(a[1][1]) if isinstance(a[1], tuple) else str(a[1]))
                if nm:
                    return nm
            i = self.A.linit.get(a[1])
            if i is not None and i.k in ('ctor', 'call', 'init', 'par', 'fld') and not self.busy.get(a[1]):
                self.busy[a[1]] = 1
                try:
                    return '$[%s]' % n(i)
                finally:
                    self.busy[a[1]] = 0
            return '$'
        if k == 'lp':
            return 'p%d' % a[1]
        if k == 'lam':
            return 'lambda{%s}' % n(a[1])
        if k == 'ctor':
            return '%s(%s)' % (short(a[1], 1), ', '.join(map(n, a[2])))
        if k == 'ite':
            if self.given is not None:
                B = self.A.B
                if B.AND(self.given, B.NOT(a[1])) == 0:
                    return n(a[2])
                if B.AND(self.given, a[1]) == 0:
                    return n(a[3])
            if self.names:
                x, y = n(a[2]), n(a[3])
                if x == y and x in self.names.values():
                    return x
            return '[%s ? %s : %s]' % (self.gate(a[1]), n(a[2]), n(a[3]))
        if k == 'bdd':
            return '<%s>' % self.gate(a[1])
        if k == 'any':
            return 'any(%s: %s)' % (n(a[1]), self.gate(a[2]))
        if k == 'anyw':
            return 'anyw(%s)' % self.gate(a[2])
        if k == 'truth':
            return n(a[1])
        if k == 'find_if':
            return 'find_if(%s: %s)' % (n(a[1]), self.gate(a[2]))
        if k == 'upd':
            if self.names and n(a[1]) in self.names.values():
                return n(a[1])
            return '%s~%s(%s)' % (n(a[1]), a[2], ', '.join(map(n, a[3])))
        if k == 'lambda':
            return 'lambda'
        if k == 'exc':
            return 'caught(%s)' % a[2]
        if k == 'var':
            return '$' + str(a[1])
        return '%s(%s)' % (k, ', '.join(map(n, a[1:])))

    def atom(self, a):
        return self(a) if isinstance(a, T) else str(a)

    def gate(self, g, limit=12):
        B = self.A.B
        if g < 2:
            return ['false', 'true'][g]
        lits = self.A.literals(g)
        d = dict(lits)
        rest = B.restrict(g, lambda a: d.get(a))
        parts = sorted(('' if v else '!') + self.atom(a) for a, v in lits)
        if rest != 1:
            cubes = []

            def go(x, acc):
                if x == 0 or len(cubes) > limit:
                    return
                if x == 1:
                    cubes.append(' & '.join(sorted(acc)))
                    return
                v, lo, hi = B.nodes[x]
                go(hi, acc + [self.atom(B.atoms[v])])
                go(lo, acc + ['!' + self.atom(B.atoms[v])])
            go(rest, [])
            parts.append('[' + ' | '.join(sorted(cubes)) + ']')
        return ' & '.join(parts)


_gl = {}


def glob(p):
    """'*' matches anything; everything else literal; 're:' prefix for a regular expression"""
    r = _gl.get(p)
    if r is None:
        if p.startswith('re:'):
            r = re.compile(p[3:] + r'\Z', re.S)
        else:
            # between two operands it may be a product, which must not match a sum, difference or quotient
            parts = p.split('*')
            ex = re.escape(parts[0])
            for a, b in zip(parts, parts[1:]):
                ex += ('(?![-+/])' if re.search(r'[\w)\]]$', a) and re.match(r'[\w(]', b) else '') + '.*' + re.escape(b)
            r = re.compile(ex + r'\Z', re.S)
        _gl[p] = r
    return r


def match(p, s):
    if isinstance(p, (list, tuple)):
        return any(match(x, s) for x in p)
    return glob(p).match(s) is not None


class Fn:
    """one analysed function"""

    def __init__(self, ctx, F, **kw):
        self.ctx = ctx
        self.F = F
        self.A = A = gssa.Analysis(ctx.P, ctx.E, **kw)
        A.run(F)
        ctx.seen |= A.funcs_seen
        self.n = Norm(A)
        self.name = short(F.d.q)
        B = A.B
        care = B.NOT(B.OR(A.throwg, A.rawthrow))
        self.axioms = self.mkaxioms()
        care = B.AND(care, self.axioms)
        self.N = care
        ev = [e for e in A.events if not (e.d is not None and e.d.c and e.d.c.startswith(NOISE_CLASSES)) and not e.q.startswith('precice::profiling::')]
        self.events = []
        for e in ev:
            self.events += self.split(e)

    def given(self, text):
        """the same function seen only under a condition: conditional values are resolved, effects of the other case are left out"""
        B = self.A.B
        v = copy.copy(self)
        v.N = B.AND(self.N, self.cond(text))
        v.__dict__.pop('_an', None)
        v.n = Norm(self.A)
        v.n.given = v.N
        v.name = '%s given %s' % (self.name, text)
        v.events = [x for e in self.events if B.AND(e.g, v.N) for x in v.split(e)]
        return v

    def split(self, e, depth=0):
        """an effect with a conditional argument or value is the same as one effect per case"""
        if depth > 3 or e.kind not in ('call', 'store', 'ret') or e.q.startswith('std::'):
            return [e]
        B = self.A.B
        for t in list(e.args) + [e.val]:
            if isinstance(t, T) and t.k == 'ite':
                out = []
                for c in (t.a[1], B.NOT(t.a[1])):
                    g = B.AND(e.g, c)
                    if g == 0 or B.AND(g, self.N) == 0:
                        continue
                    x = copy.copy(e)
                    x.g = g
                    x.args = [self.pick(y, g) for y in e.args]
                    x.val = self.pick(e.val, g)
                    if x.kind == 'store' and x.val is x.args[0]:
                        continue
                    out += self.split(x, depth + 1)
                return out
        return [e]

    def pick(self, t, g):
        B = self.A.B
        while isinstance(t, T) and t.k == 'ite':
            if B.AND(B.AND(g, self.N), B.NOT(t.a[1])) == 0:
                t = t.a[2]
            elif B.AND(B.AND(g, self.N), t.a[1]) == 0:
                t = t.a[3]
            else:
                break
        return t

    def enumerators(self, prefix):
        P = self.A.P
        c = getattr(P, '_enums', None)
        if c is None:
            c = P._enums = {}
            for d in P.decl.values():
                if d.k == 'enum':
                    c.setdefault(d.q.rsplit('::', 1)[0], set()).add(d.q)
        return c.get(prefix)

    def mkaxioms(self):
        """mutually exclusive comparisons of one value with different constants; rank roles"""
        A, B = self.A, self.A.B
        groups = {}
        roles = {}
        for a in list(B.atoms):
            if not isinstance(a, T):
                continue
            if a.k == 'op' and a.a[1] == '==' and len(a.a) == 4:
                for x, c in ((a.a[2], a.a[3]), (a.a[3], a.a[2])):
                    if c.k in ('enum', 'int', 'str', 'char'):
                        groups.setdefault(x, {})[c] = a
            s = self.n.atom(a)
            if s in ('IntraComm::isSecondary()', 'IntraComm::isPrimary()', 'IntraComm::isParallel()'):
                roles.setdefault(s[11:-2], []).append(a)
        ax = 1
        for x, m in groups.items():
            l = list(m.values())
            for i in range(len(l)):
                for j in range(i):
                    ax = B.AND(ax, B.NOT(B.AND(B.atom(l[i]), B.atom(l[j]))))
            names = {c.a[1] for c in m if c.k == 'enum'}
            if names:
                p = next(iter(names)).rsplit('::', 1)[0]
                if self.enumerators(p) == names:
                    o = 0
                    for a in l:
                        o = B.OR(o, B.atom(a))
                    ax = B.AND(ax, o)
        for s in roles.get('isSecondary', []):
            for p in roles.get('isPrimary', []):
                ax = B.AND(ax, B.NOT(B.AND(B.atom(s), B.atom(p))))
        for par in roles.get('isParallel', []):
            for s in roles.get('isSecondary', []):
                ax = B.AND(ax, B.IMP(B.atom(s), B.atom(par)))
            for p in roles.get('isPrimary', []):
                ax = B.AND(ax, B.IMP(B.atom(p), B.atom(par)))
            for s in roles.get('isSecondary', []):
                for p in roles.get('isPrimary', []):
                    ax = B.AND(ax, B.IMP(B.atom(par), B.OR(B.atom(s), B.atom(p))))
        self.emptyat = {}
        for a in list(B.atoms):
            if isinstance(a, T) and a.k == 'op' and a.a[1] == '==' and len(a.a) == 4:
                for x, c in ((a.a[2], a.a[3]), (a.a[3], a.a[2])):
                    if x.k == 'size' and c is T('int', 0):
                        self.emptyat[x.a[1]] = B.atom(a)
        for a in list(B.atoms):
            if isinstance(a, T) and a.k == 'any' and a.a[1] in self.emptyat:
                ax = B.AND(ax, B.NOT(B.AND(B.atom(a), self.emptyat[a.a[1]])))
        anys = {}
        for a in list(B.atoms):
            if isinstance(a, T) and a.k == 'any':
                anys.setdefault(a.a[1], []).append(a)
        for R, l in anys.items():
            for x in l[:12]:
                for y in l[:12]:
                    if x is not y and B.implies(x.a[2], y.a[2]):
                        ax = B.AND(ax, B.IMP(B.atom(x), B.atom(y)))
        return ax

    def collapse(self, g):
        """the same query made at different times counts as one condition (the 'fresh' rules compare the times)"""
        B = self.A.B
        c = getattr(self, '_coll', None)
        if c is None:
            c = self._coll = ({}, {})
        def f(a):
            s = c[1].get(a)
            if s is None:
                s = c[1][a] = self.n.atom(a)
            return B.atom(c[0].setdefault(s, a))
        return B.mapatoms(g, f)

    def member(self, evs):
        """ranges that have elements because all these effects belong to iterations over them"""
        B = self.A.B
        r = 1
        for R, b in self.emptyat.items():
            if evs and all(any(L.range is R for L in e.loops) for e in evs):
                r = B.AND(r, B.NOT(b))
        return r

    # -- selection --
    def sel(self, kind, q='*', *args, **kw):
        out = []
        for e in self.events:
            if isinstance(kind, (tuple, list)):
                if e.kind not in kind:
                    continue
            elif e.kind != kind:
                continue
            if not match(q, short(e.q)) and not match(q, e.q):
                continue
            if args:
                ea = list(e.args)
                ok = True
                for i, p in enumerate(args):
                    if p is None or p == '*':
                        continue
                    if i >= len(ea) or not match(p, self.n(ea[i])):
                        ok = False
                        break
                if not ok:
                    continue
            if 'val' in kw and not match(kw['val'], self.n(e.val)):
                continue
            if 'loop' in kw and not match(kw['loop'], ' '.join(self.rng(L) for L in e.loops)):
                continue
            if 'nargs' in kw and len(e.args) != kw['nargs']:
                continue
            if 'where' in kw and not kw['where'](e):
                continue
            out.append(e)
        return Sel(self, out, '%s %s%s' % (kind if isinstance(kind, str) else '/'.join(kind), q, '(%s)' % ', '.join(str(x) for x in args) if args else ''))

    def call(self, q='*', *args, **kw):
        return self.sel('call', q, *args, **kw)

    def store(self, q='*', val=None, **kw):
        if val is not None:
            kw['val'] = val
        return self.sel('store', q, **kw)

    def throws(self):
        return self.sel('throw')

    def rets(self):
        return self.sel('ret')

    def rng(self, L):
        if L.range is not None:
            r = self.n(L.range)
            return '[' + r[14:] if r.startswith('boost::irange(') else r        # counted range
        if L.lo is not None:
            return '[%s, %s)' % (self.n(L.lo), self.n(L.hi))
        return L.kind

    # -- conditions --
    def norm_gate(self, g):
        return self.A.constrain(g, self.N) if self.N else g

    def carried(self, e, t):
        """(initial value, value after one iteration) of a value carried by one of the loops of an effect"""
        for L in e.loops:
            if t.k in ('phi', 'lout') and L.id == t.a[1]:
                for u in L.init:
                    if (str(u[1]) if isinstance(u, tuple) else str(u)) == t.a[2]:
                        return L.init[u], L.fin.get(u)
        return None, None

    def atoms(self, pat):
        if not hasattr(self, '_an') or len(self._an) != len(self.A.B.atoms) or self._nn != len(self.n.names) + len(self.n.outs):
            self._nn = len(self.n.names) + len(self.n.outs)
            self._an = [(a, self.n.atom(a)) for a in self.A.B.atoms]
        return [a for a, s in self._an if match(pat, s)]

    def cond(self, ex):
        """parse a condition over atom patterns"""
        if not isinstance(ex, str):
            return ex
        toks = re.findall(r'\{(?:[^{}]|\{[^{}]*\})*\}[@^]?-?\d*|[&|!()]|\bT\b|\bF\b', ex)
        B = self.A.B
        pos = [0]

        def prim():
            t = toks[pos[0]]
            pos[0] += 1
            if t == '!':
                return B.NOT(prim())
            if t == '(':
                r = orx()
                pos[0] += 1
                return r
            if t == 'T':
                return 1
            if t == 'F':
                return 0
            body, suf = t[1:t.rindex('}')], t[t.rindex('}') + 1:]
            at = self.atoms(body)
            if not at:
                return B.atom(T('missing', body))
            if suf.startswith('@'):
                i = int(suf[1:])
                return B.atom(at[i if i < 0 else i - 1])
            r = 0
            if suf == '^':
                r = 1
                for a in at:
                    r = B.AND(r, B.atom(a))
                return r
            for a in at:
                r = B.OR(r, B.atom(a))
            return r

        def andx():
            r = prim()
            while pos[0] < len(toks) and toks[pos[0]] == '&':
                pos[0] += 1
                r = B.AND(r, prim())
            return r

        def orx():
            r = andx()
            while pos[0] < len(toks) and toks[pos[0]] == '|':
                pos[0] += 1
                r = B.OR(r, andx())
            return r
        return orx()

    def lift(self, e, upto=0):
        """gate of e seen from outside its loops: some iteration reaches it"""
        g = e.g
        for L in reversed(e.loops[upto:]):
            g = self.A.lift(self.A.constrain(g, 1), L, L.entry)
        return g

    def liftg(self, e, g):
        for L in reversed(e.loops):
            g = self.A.lift(self.A.constrain(g, 1), L, L.entry)
        return g

    def under(self, t, g):
        """resolve conditional values under a condition"""
        B = self.A.B
        g = B.AND(g, self.N)
        if t.k == 'ite':
            if B.implies(g, t.a[1]):
                return self.under(t.a[2], g)
            if B.AND(g, t.a[1]) == 0:
                return self.under(t.a[3], g)
            a, b = self.under(t.a[2], B.AND(g, t.a[1])), self.under(t.a[3], B.AND(g, B.NOT(t.a[1])))
            return a if a is b else T('ite', t.a[1], a, b)
        return t

    def text(self, e):
        return '%s %s(%s)%s' % (e.kind, short(e.q), ', '.join(self.n(x) for x in e.args), ' = ' + self.n(e.val) if e.kind in ('store', 'ret') else '')

    def dump(self, width=230, all=False):
        print('== %s  %s:%s  atoms=%d' % (self.F.d.q, self.F.file, self.F.line, len(self.A.B.atoms)))
        prev = set()
        ploops = ()
        for e in self.events:
            if not all and (e.inlined or (e.kind == 'call' and e.d is not None and e.d.cst and e.d.t != 'void') or e.kind == 'ctor'):
                continue
            if not all and e.kind == 'call' and e.q.startswith('std::') and e.d is not None and e.d.c is None:
                continue
            g = self.norm_gate(e.g) if e.kind not in ('throw', 'abort') else e.g
            gs = self.n.gate(g)
            if e.kind in ('throw', 'abort'):
                # show relative to the absence of the other errors
                oth = 0
                for x in self.events:
                    if x.kind in ('throw', 'abort') and x is not e:
                        oth = self.A.B.OR(oth, x.g)
                gs = self.n.gate(self.A.constrain(e.g, self.A.B.NOT(oth)))
            if e.loops != ploops:
                ploops = e.loops
                for i, L in enumerate(e.loops):
                    print('    %sfor %s%s%s' % ('  ' * i, self.rng(L)[:150], ' BREAKS' if self.norm_gate(L.breaks) else '', ' EXITS' if self.norm_gate(L.exits) else ''))
            print((('%4s ' % e.line) + '  ' * len(e.loops) + self.text(e) + '  | ' + gs)[:width])


class Sel:
    def __init__(self, f, evs, desc):
        self.f, self.evs, self.desc = f, evs, desc

    def __len__(self):
        return len(self.evs)

    def __iter__(self):
        return iter(self.evs)

    def __getitem__(self, i):
        return self.evs[i]

    def __or__(self, o):
        return Sel(self.f, sorted(set(self.evs) | set(o.evs), key=lambda e: e.seq), self.desc + ' or ' + o.desc)

    @property
    def g(self):
        B = self.f.A.B
        r = 0
        for e in self.evs:
            r = B.OR(r, e.g)
        return r

    @property
    def glift(self):
        B = self.f.A.B
        r = 0
        for e in self.evs:
            r = B.OR(r, self.f.lift(e))
        return r

    @property
    def loc(self):
        return ', '.join(e.loc for e in self.evs[:4]) or '%s:%s' % (self.f.F.file, self.f.F.line)


# ---------------------------------------------------------------- spec lines
def split_line(l):
    """KIND PATTERN [= VALUE] [| COND], with an optional 'for R1 >> R2 ...: ' prefix"""
    loops = None
    brk = False
    if l.startswith('for '):
        i = l.index(': ')
        loops = [x.strip() for x in l[4:i].split(' >> ')]
        l = l[i + 2:].strip()
    cond = 'T'
    if ' | ' in l:
        # first top-level bar
        d = 0
        for i, ch in enumerate(l):
            if ch in '([{':
                d += 1
            elif ch in ')]}':
                d -= 1
            elif ch == '|' and d <= 0 and l[i - 1] == ' ' and l[i + 1:i + 2] == ' ':
                cond = l[i + 1:].strip()
                l = l[:i].strip()
                break
    kind, _, pat = l.partition(' ')
    return loops, kind, pat.strip(), cond


def expr(f, g, limit=40):
    """condition text that Fn.cond parses back"""
    B = f.A.B
    if g < 2:
        return 'FT'[g]

    def at(a):
        return '{%s}' % f.n.atom(a)
    lits = f.A.literals(g)
    d = dict(lits)
    rest = B.restrict(g, lambda a: d.get(a))
    parts = sorted((('' if v else '!') + at(a)) for a, v in lits)
    if rest != 1:
        cubes = []

        def go(x, acc):
            if x == 0 or len(cubes) > limit:
                return
            if x == 1:
                cubes.append(' & '.join(sorted(acc)))
                return
            v, lo, hi = B.nodes[x]
            go(hi, acc + [at(B.atoms[v])])
            go(lo, acc + ['!' + at(B.atoms[v])])
        go(rest, [])
        parts.append('(' + ' | '.join(sorted(cubes)) + ')')
    return ' & '.join(parts)


def evtext(f, e):
    if len(e.loops) > 1:
        f.n.within(e.loops)
        try:
            return evtext1(f, e)
        finally:
            f.n.within([])
    return evtext1(f, e)


def evtext1(f, e):
    return short(e.q) + ('(%s)' % ', '.join(f.n(x) for x in e.args)) + (' = ' + f.n(e.val) if e.kind in ('store', 'ret') and e.val is not None else '')


def mkspec(f, all=False):
    out = []
    done = set()
    for e in f.events:
        if e.kind == 'throw':
            continue
        if not all and (e.inlined or (e.kind == 'call' and e.d is not None and e.d.cst and e.d.t != 'void') or e.kind == 'ctor'):
            continue
        if e.kind == 'ret' and (e.val is None or e.val.k == 'none'):
            continue
        pre = ''
        if e.loops:
            pre = 'for ' + ' >> '.join(f.rng(L) + (' BREAKS' if f.norm_gate(L.breaks) or f.norm_gate(L.exits) else '') for L in e.loops) + ': '
        g = f.norm_gate(e.g)
        t = pre + e.kind + ' ' + evtext(f, e)
        if g != 1:
            t += ' | ' + expr(f, g)
        if t not in done:
            out.append(t)
            done.add(t)
    th = f.A.B.AND(f.A.throwg, f.axioms)
    if th:
        out.append('throws | ' + expr(f, f.A.throwg))
    return out
