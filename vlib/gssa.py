"""Gated value/effect analysis.

For a root function the analysis walks the structured body once, inlining project
helpers, and computes for every effect (call, store, throw, return) its *gate*: the
Boolean function over condition atoms under which it is reached, and for every
value its provenance term (copy-propagated, alias-resolved).  Loops are summarised
(one abstract element per loop), conditions are kept in canonical form (BDD), so
the result does not depend on how the code is written down: helper extraction,
early returns versus nested ifs, temporaries, negated conditions, loop styles and
algorithm calls all give the same gates and terms.

It is a static dataflow analysis: no input is chosen, no path is handed to a solver.
"""
import re
import sys
from bdd import BDD
from effects import Effects, walk, walkx, is_getter, is_noop, strip, ext_read
from facts import Decl, AnalysisError

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('a', 'id', '_s')
    tab = {}

    def __new__(cls, *a):
        t = cls.tab.get(a)
        if t is None:
            t = object.__new__(cls)
            t.a = a
            t.id = len(cls.tab)
            t._s = None
            cls.tab[a] = t
        return t

    @property
    def k(self):
        return self.a[0]

    def __repr__(self):
        if self._s is None:
            self._s = show(self)
        return self._s

    def __reduce__(self):
        return (T, self.a)


def show(t):
    if not isinstance(t, T):
        return str(t)
    a = t.a
    k = a[0]
    if k == 'fld':
        b = a[1]
        n = a[2].split('::')[-1]
        st = "'%s" % a[3] if a[3] else ''
        if isinstance(b, T) and b.k == 'this':
            return n + st
        return '%s.%s%s' % (b, n, st)
    if k == 'this':
        return 'this'
    if k == 'par':
        return 'arg%d' % a[1]
    if k in ('int', 'bool', 'flt', 'char'):
        return str(a[1])
    if k == 'str':
        return '"%s"' % a[1]
    if k == 'enum':
        return '::'.join(a[1].split('::')[-2:])
    if k == 'call':
        s = "#%s" % (a[3],) if a[3] else ''
        return '%s(%s)%s' % ('::'.join(a[1].split('::')[-2:]), ', '.join(map(str, a[2])), s)
    if k == 'op':
        if len(a) == 4:
            return '(%s %s %s)' % (a[2], a[1], a[3])
        return '%s(%s)' % (a[1], ', '.join(map(str, a[2:])))
    if k == 'poly':
        return '+'.join('%s%s' % ('' if c == 1 else '%s*' % c, '*'.join(map(str, m)) or '1') for m, c in a[1])
    if k == 'elem':
        return 'elem(%s)@%s' % (a[1], a[2])
    return '%s(%s)' % (k, ', '.join(map(str, a[1:])))


NULL = T('null')
TRUE = T('bool', 1)
FALSE = T('bool', 0)
THIS = T('this')


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a[1:])
        elif isinstance(x, tuple):
            st.extend(x)


INTEGRAL = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|size_t|std::size_t|unsigned|long long|unsigned long|unsigned int|std::ptrdiff_t|(precice::)?(Rank|VertexID|DataID|MeshID)|auto)$')


class Loop:
    def __init__(self, id, kind, rng, file, line):
        self.id, self.kind, self.range, self.file, self.line = id, kind, rng, file, line
        self.lo = self.hi = None
        self.cond = None
        self.entry = None
        self.breaks = 0
        self.continues = 0
        self.exits = 0
        self.leave = 0                  # the loop condition fails

    def __repr__(self):
        return 'L%d(%s %s)' % (self.id, self.kind, self.range)


class Event:
    __slots__ = ('kind', 'q', 'd', 'args', 'g', 'loops', 'seq', 'file', 'line', 'stack', 'val', 'inlined', 'obj', 'sub', 'node',
                 'tr', 'lifted')

    def __repr__(self):
        return '[%s %s(%s)%s @%s:%s]' % (self.kind, self.q, ', '.join(map(str, self.args or [])), ' = %s' % self.val if self.val is not None else '', self.file, self.line)

    @property
    def loc(self):
        return '%s:%s' % (self.file, self.line)


class State:
    __slots__ = ('env', 'heap', 'ep', 'g')

    def __init__(self):
        self.env, self.heap, self.ep, self.g = {}, {}, {}, 1

    def copy(self):
        s = State()
        s.env, s.heap, s.ep, s.g = dict(self.env), dict(self.heap), dict(self.ep), self.g
        return s

    def set(self, o):
        self.env, self.heap, self.ep, self.g = o.env, o.heap, o.ep, o.g


SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'boost::optional', 'std::optional',
         'std::weak_ptr', 'std::reference_wrapper', 'std::_Optional', 'std::__uniq_ptr')
POINTER = re.compile(r'(\*|\bPtr\w*|_ptr<.*>|Ptr)( const)?$')


def forwards(D):
    """library functions which take forwarding references but only copy from lvalues"""
    return not D.f and (D.n.startswith(('emplace', 'make_')) or D.n in ('insert_or_assign', 'try_emplace', 'forward_as_tuple'))


MOVELIKE = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::launder', 'precice::utils::make_array'}
BEGIN = {'begin', 'cbegin'}
END = {'end', 'cend'}
VOLATILE = re.compile(r'filesystem::(exists|is_\w+|remove|rename|create_\w+|file_size)$|::now$|^(fmt::print|std::(rand|time|getenv|getline))$')
PURE_FREE_PREFIX = ('std::', 'precice::math::', 'fmt::', 'Eigen::', 'boost::')


class Frame:
    def __init__(self, F, this):
        self.F, self.this = F, this
        self.rets = []


class Analysis:
    def __init__(self, P, eff, policy=None, maxdepth=12, devirt=None, lazy_loops=False):
        self.P, self.eff = P, eff
        self.B = BDD()
        self.events = []
        self.loops = []
        self.loopstack = []
        self.stack = []
        self.frames = []
        self.policy = policy or default_policy
        self.maxdepth = maxdepth
        self.devirt = devirt or {}
        self.seq = 0
        self.fresh = 0
        self.upseq = {}
        self.brk = []
        self.inlined = set()
        self.funcs_seen = set()
        self.unknown = []
        self.curline = 0
        self.throwg = 0
        self.rawthrow = 0
        self.linit = {}
        self.inlpar = set()
        self.lams = {}
        self.fnD = {}
        self.outpars = {}

    # ---------- utilities ----------
    def pointer(self, v):
        ps = self.root.params if self.root else []
        return v.a[1] < len(ps) and (ps[v.a[1]].t or '').endswith('*')

    def pointee(self, v):
        """the output parameter of the analysed function a pointer value points to"""
        if v is not None and v.k == 'par':
            for t, ref in self.outpars.values():
                if t.a[1] == v.a[1] and not ref:
                    return (t, False)
        return None

    def uid(self):
        self.fresh += 1
        self.upseq[self.fresh] = self.seq
        return self.fresh

    def changed(self, t):
        """{field: event number of the last modification seen by this read}, None: not a versioned read"""
        if t.k == 'fld' and len(t.a) > 3:
            return {t.a[2]: self.upseq.get(t.a[3], 0)}
        if t.k == 'call' and len(t.a) > 3:
            if t.a[3] in _stamp_rev:
                return {f: self.upseq.get(u, 0) for f, u in _stamp_rev[t.a[3]]}
            if t.a[3] == 0:
                return {}
        return None

    def bump(self, S, fq):
        S.ep[fq] = self.uid()
        for k in [k for k in S.heap if k[1] == fq]:
            del S.heap[k]

    def event(self, S, kind, q, args=None, d=None, val=None, inlined=False, node=None):
        E = Event()
        self.seq += 1
        E.kind, E.q, E.args, E.d, E.val = kind, q, args or [], d, val
        E.g, E.loops, E.seq = S.g, tuple(self.loopstack), self.seq
        F = self.frames[-1].F if self.frames else None
        E.file = F.file if F else '?'
        E.line = self.curline
        E.stack = tuple(self.stack)
        E.inlined = inlined
        E.node = node
        E.tr = None
        self.events.append(E)
        return E

    # ---------- merging ----------
    def constrain(self, f, c):
        """simplify f under care set c (Coudert-Madre restrict)"""
        B = self.B
        memo = {}

        def go(f, c):
            if c == 1 or f < 2:
                return f
            if c == 0:
                return 0
            k = (f, c)
            if k in memo:
                return memo[k]
            nf, nc = B.nodes[f], B.nodes[c]
            if nc[0] < nf[0]:
                r = go(f, B.OR(nc[1], nc[2]))
            else:
                c0, c1 = (nc[1], nc[2]) if nc[0] == nf[0] else (c, c)
                if c0 == 0:
                    r = go(nf[2], c1)
                elif c1 == 0:
                    r = go(nf[1], c0)
                else:
                    r = B.mk(nf[0], go(nf[1], c0), go(nf[2], c1))
            memo[k] = r
            return r
        return go(f, c)

    def ite(self, c, a, b):
        if a is b or c == 1:
            return a
        if c == 0:
            return b
        if a is TRUE and b is FALSE:
            return self.bval(c)
        if a is FALSE and b is TRUE:
            return self.bval(self.B.NOT(c))
        if self.boolish(a) and self.boolish(b):
            return self.bval(self.B.ite(c, self.tobdd(a), self.tobdd(b)))
        return T('ite', c, a, b)

    def boolish(self, t):
        return isinstance(t, T) and t.k in ('bool', 'bdd')

    def boolnode(self, e):
        return e['k'] in ('var', 'mem') and 'd' in e and self.tu.decls[e['d']].t in ('bool', 'const bool')

    def bval(self, c):
        if c == 1:
            return TRUE
        if c == 0:
            return FALSE
        n = self.B.nodes[c]
        if n[1] == 0 and n[2] == 1:
            a = self.B.atoms[n[0]]
            if isinstance(a, T) and a.k == 'truth':
                return a.a[1]
            return T('bdd', c)
        return T('bdd', c)

    def merge(self, A, Bs):
        """merge state Bs into A (A,Bs: exclusive guards) and return merged"""
        if A is None or A.g == 0:
            return Bs
        if Bs is None or Bs.g == 0:
            return A
        B = self.B
        R = State()
        R.g = B.OR(A.g, Bs.g)
        c = self.constrain(A.g, R.g)
        for k in list(A.env) + [k for k in Bs.env if k not in A.env]:
            x, y = A.env.get(k), Bs.env.get(k)
            if x is None or y is None:
                R.env[k] = x if x is not None else y
            elif x is y:
                R.env[k] = x
            elif x.k == 'alias' or y.k == 'alias':
                R.env[k] = T('alias', self.ite(c, x.a[1] if x.k == 'alias' else x, y.a[1] if y.k == 'alias' else y))
            else:
                R.env[k] = self.ite(c, x, y)
        for fq in set(A.ep) | set(Bs.ep):
            x, y = A.ep.get(fq, 0), Bs.ep.get(fq, 0)
            if x == y:
                R.ep[fq] = x
            else:
                R.ep[fq] = self.uid()
        for k in set(A.heap) | set(Bs.heap):
            x, y = A.heap.get(k), Bs.heap.get(k)
            if x is y:
                R.heap[k] = x
                continue
            if x is None:
                x = T('fld', k[0], k[1], A.ep.get(k[1], 0))
            if y is None:
                y = T('fld', k[0], k[1], Bs.ep.get(k[1], 0))
            R.heap[k] = self.ite(c, x, y)
        return R

    # ---------- terms ----------
    def arith(self, t):
        """term -> {mono: coef}"""
        if t.k == 'int':
            return {(): int(t.a[1])} if int(t.a[1]) else {}
        if t.k == 'poly':
            return dict(t.a[1])
        return {(t,): 1}

    def mkpoly(self, d):
        d = {m: c for m, c in d.items() if c != 0}
        if not d:
            return T('int', 0)
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                return T('int', c)
            if c == 1 and len(m) == 1:
                return m[0]
        return T('poly', tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(repr(x) for x in mc[0])))))

    def add(self, a, b, s=1):
        d = self.arith(a)
        for m, c in self.arith(b).items():
            d[m] = d.get(m, 0) + s * c
        return self.mkpoly(d)

    def mul(self, a, b):
        d = {}
        for m, c in self.arith(a).items():
            for n, e in self.arith(b).items():
                k = tuple(sorted(m + n, key=repr))
                d[k] = d.get(k, 0) + c * e
        return self.mkpoly(d)

    def binop(self, op, a, b):
        if op in ('+', '-', '*'):
            if a.k in ('flt',) or b.k in ('flt',):
                if a.k == 'flt' and float(a.a[1]) == int(a.a[1]):
                    a = T('int', int(a.a[1]))
                if b.k == 'flt' and float(b.a[1]) == int(b.a[1]):
                    b = T('int', int(b.a[1]))
            if a.k == 'str' or b.k == 'str':
                return T('cat', a, b)
            if op == '+':
                return self.add(a, b)
            if op == '-':
                return self.add(a, b, -1)
            return self.mul(a, b)
        if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return self.bval(self.cmp(op, a, b))
        if op == ',':
            return b
        if op in ('/', '%') and a.k == 'int' and b.k == 'int' and int(b.a[1]) != 0:
            x, y = int(a.a[1]), int(b.a[1])
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return T('int', q if op == '/' else x - q * y)
        return T('op', op, a, b)

    def cmp(self, op, a, b):
        B = self.B
        if op == '&&':
            return B.AND(self.tobdd(a), self.tobdd(b))
        if op == '||':
            return B.OR(self.tobdd(a), self.tobdd(b))
        if op == '!=':
            return B.NOT(self.cmp('==', a, b))
        if op == '>':
            return self.cmp('<', b, a)
        if op == '>=':
            return B.NOT(self.cmp('<', a, b))
        if op == '<=':
            return B.NOT(self.cmp('<', b, a))
        # distribute over gated values
        if a.k == 'ite':
            return B.ite(a.a[1], self.cmp(op, a.a[2], b), self.cmp(op, a.a[3], b))
        if b.k == 'ite':
            return B.ite(b.a[1], self.cmp(op, a, b.a[2]), self.cmp(op, a, b.a[3]))
        if a.k == 'contains' and b.k == 'int' or b.k == 'contains' and a.k == 'int':
            # unique containers: count() is 0 or 1
            c, i = (a, b) if a.k == 'contains' else (b, a)
            t, n = self.tobdd(c), i.a[1]
            if op == '==' and isinstance(n, int):
                return t if n == 1 else B.NOT(t) if n == 0 else 0
            if op == '<' and isinstance(n, int):
                if c is a:
                    return 0 if n <= 0 else B.NOT(t) if n == 1 else 1
                return t if n == 0 else 1 if n < 0 else 0
        if op == '==':
            if a is b:
                return 1
            if b.k in ('null', 'bool') or self.boolish(b):
                a, b = b, a
            if a.k == 'null':
                if b.k in ('new',):
                    return 0
                return B.NOT(self.tobdd(b))
            if a is TRUE:
                return self.tobdd(b)
            if a is FALSE:
                return B.NOT(self.tobdd(b))
            if a.k == 'bdd' or b.k == 'bdd':
                x, y = self.tobdd(a), self.tobdd(b)
                return B.ite(x, y, B.NOT(y))
            if a.k == 'end' or b.k == 'end':
                if a.k == 'end':
                    a, b = b, a
                if a.k == 'find_if':
                    return B.NOT(B.atom(T('any', a.a[1], a.a[2])))
                if a.k == 'find':
                    return B.NOT(B.atom(T('contains', a.a[1], a.a[2])))
                if a.k == 'begin':
                    return self.cmp('==', T('size', a.a[1]), T('int', 0))
            if a.k in ('int', 'enum', 'str', 'char', 'flt') and b.k == a.k:
                return 1 if a.a[1] == b.a[1] else 0
            if a.k in ('int', 'poly') or b.k in ('int', 'poly'):
                # a - b == 0 canonical, sign-normalised
                p = self.add(a, b, -1)
                if p.k == 'int':
                    return 1 if int(p.a[1]) == 0 else 0
                d = self.arith(p)
                const = d.pop((), 0)
                items = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(repr(x) for x in mc[0])))
                if items[0][1] < 0:
                    d = {m: -c for m, c in d.items()}
                else:
                    const = -const
                L, R = self.mkpoly(d), T('int', const)
                return B.atom(T('op', '==', L, R))
            if repr(a) > repr(b):
                a, b = b, a
            if a.k in ('enum', 'str', 'char', 'flt'):
                a, b = b, a
            return B.atom(T('op', '==', a, b))
        if op == '<':
            if a is b:
                return 0
            if a.k == 'int' and b.k == 'int':
                return 1 if int(a.a[1]) < int(b.a[1]) else 0
            if a.k in ('int', 'poly') or b.k in ('int', 'poly'):
                p = self.add(b, a, -1)   # 0 < p
                if p.k == 'int':
                    return 1 if 0 < int(p.a[1]) else 0
                d = self.arith(p)
                const = d.pop((), 0)
                # 0 < d + const  <=> -const < d
                Lp = self.mkpoly(d)
                if Lp.k == 'size':
                    if const == 0:
                        return B.NOT(self.cmp('==', Lp, T('int', 0)))
                    if const > 0:
                        return 1
                nd = {m: -c for m, c in d.items()}
                Ln = self.mkpoly(nd)
                if Ln.k == 'size':
                    # size < const
                    if const == 1:
                        return self.cmp('==', Ln, T('int', 0))
                    if const <= 0:
                        return 0
                items = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(repr(x) for x in mc[0])))
                if items[0][1] < 0:
                    # canonical: X < C  with X leading positive
                    return B.atom(T('op', '<', Ln, T('int', const)))
                return B.atom(T('op', '<', T('int', -const), Lp))
            return B.atom(T('op', '<', a, b))
        raise AssertionError(op)

    def tobdd(self, t):
        B = self.B
        if t is TRUE:
            return 1
        if t is FALSE:
            return 0
        k = t.k
        if k == 'bdd':
            return t.a[1]
        if k == 'ite':
            return B.ite(t.a[1], self.tobdd(t.a[2]), self.tobdd(t.a[3]))
        if k == 'null':
            return 0
        if k == 'int':
            return 1 if int(t.a[1]) else 0
        if k == 'new':
            return 1
        if k in ('any', 'contains'):
            return B.atom(t)
        return B.atom(T('truth', t))

    # ---------- reading / writing ----------
    def read(self, S, lv):
        if lv.k == 'lv':
            v = S.env.get(lv.a[1])
            if v is None:
                return T('var', lv.a[2], str(lv.a[1]))
            if v.k == 'alias':
                return self.read(S, v.a[1])
            return v
        if lv.k == 'fld':
            key = (lv.a[1], lv.a[2])
            v = S.heap.get(key)
            if v is not None:
                return v
            return T('fld', lv.a[1], lv.a[2], S.ep.get(lv.a[2], 0))
        if lv.k == 'idx' and lv.a[1].k == 'lv':
            v = self.replaced(lv.a[1], S)
            if v is None and lv.a[1].a[1] in self.inlpar:
                v = S.env.get(lv.a[1].a[1])         # parameter of an inlined function: the same variable has another value in every call
                if v is not None and v.k not in ('poly', 'op', 'fld', 'par'):
                    v = None
            if v is not None:
                return self.index(v, lv.a[2])
        return lv

    def replaced(self, lv, S):
        """value of a local object which was assigned as a whole since it was set up"""
        v, i = S.env.get(lv.a[1]), self.linit.get(lv.a[1])
        if v is None or i is None or v is i or v.k not in ('call', 'new', 'op', 'poly') or v.k == i.k and v.a[1] == i.a[1]:
            return None
        return v

    def store(self, S, lv, val, op='=', node=None):
        if lv.k == 'lv':
            v = S.env.get(lv.a[1])
            if v is not None and v.k == 'alias':
                return self.store(S, v.a[1], val, op)
            rp = self.outpars.get(lv.a[1])
            if rp is None and len(lv.a) > 3:
                rp = self.pointee(S.env.get(lv.a[1]))
            S.env[lv.a[1]] = val
            if rp is not None and (rp[1] or len(lv.a) > 3) and len(self.frames) >= 1:
                E = self.event(S, 'store', 'parameter', [rp[0]], val=val)
                E.obj = rp[0]
            return
        if lv.k == 'ite':
            E = self.event(S, 'store', str(lv.k), [lv], val=val)
            for x in (lv.a[2], lv.a[3]):
                if isinstance(x, T) and x.k == 'fld':
                    self.bump(S, x.a[2])
                elif isinstance(x, T) and x.k == 'lv':
                    S.env[x.a[1]] = T('out', self.uid(), 0)
            return
        if lv.k == 'fld':
            fq = lv.a[2]
            E = self.event(S, 'store', fq, [lv], val=val)
            E.obj = lv.a[1]
            E.sub = None
            self.bump(S, fq)
            S.heap[(lv.a[1], fq)] = val
            return
        # element / subscript of something
        base = lv
        while base.k in ('idx', 'elem', 'part'):
            base = base.a[1]
        E = self.event(S, 'store', base.a[2] if base.k == 'fld' else base.k, [lv], val=val)
        E.obj = base
        E.sub = lv
        if base.k == 'fld':
            key = (base.a[1], base.a[2])
            old = self.read(S, base)
            self.bump(S, base.a[2])
            S.heap[key] = T('upd', old, 'store', (lv, val))
        elif base.k == 'lv':
            old = self.read(S, base)
            S.env[base.a[1]] = T('upd', old, 'store', (lv, val))

    def lval(self, e, S):
        """location term of an lvalue expression (falls back to its value)"""
        tu = self.tu
        k = e['k']
        if k == 'var':
            D = tu.decls[e['d']]
            if D.k == 'binding':
                return self.binding(D, S)
            v = S.env.get(D.u)
            if v is not None and v.k == 'alias':
                return v.a[1]
            if v is None and D.k in ('global', 'sfield', 'slocal'):
                return T('fld', T('static'), D.q if D.k != 'slocal' else str(D.u), 0)
            return T('lv', D.u, D.n)
        if k == 'mem':
            D = tu.decls[e['d']]
            b = self.ev(e['b'], S)
            return self.field(b, D)
        if k == 'idx':
            b = self.lval(e['a'][0], S)
            i = self.ev(e['a'][1], S)
            return self.index(self.read(S, b) if b.k == 'lv' and False else b, i)
        if k == 'un' and e['op'] in ('*', '&'):
            lv = self.lval(e['a'][0], S)
            if e['op'] == '*' and lv.k == 'lv' and (lv.a[1] in self.outpars or self.pointee(S.env.get(lv.a[1]))):
                return T('lv', lv.a[1], lv.a[2], 1)
            return lv
        if k in ('cast', 'defarg', 'definit'):
            return self.lval(e['a'][0], S)
        if k == 'cond':
            c = self.tobdd(self.ev(e['a'][0], S))
            return self.ite(c, self.lval(e['a'][1], S), self.lval(e['a'][2], S))
        if k == 'un' and e['op'] in ('++', '--'):
            self.ev(e, S)
            return self.lval(e['a'][0], S)
        if k == 'asg':
            self.ev(e, S)
            return self.lval(e['a'][0], S)
        if k == 'call' and 'd' in e:
            D = tu.decls[e['d']]
            if e.get('o') is not None and (not D.f or (D.c or '').startswith('precice::span')):
                if D.n in ('operator->', 'operator*', 'get', 'value') and self.smart(D):
                    return self.lval(e['o'], S)
                if len(e['a']) == 1 and (D.n in ('operator[]', 'at') or D.n in ('operator()', 'coeff', 'coeffRef') and (D.c or '').startswith('Eigen')):
                    b = self.lval(e['o'], S)
                    i = self.ev(e['a'][0], S)
                    if b.k == 'lv' and self.replaced(b, S) is not None:
                        return T('idx', b, i)
                    return self.index(b, i)
                if D.n == 'operator()' or D.n in ('col', 'row', 'segment', 'block', 'head', 'tail', 'array', 'matrix', 'noalias'):
                    b = self.lval(e['o'], S)
                    return T('idx', b, T('tup', D.n, tuple(self.ev(a, S) for a in e['a'])))
                if D.n == 'front' and ('vector' in (D.c or '') or 'array' in (D.c or '') or 'deque' in (D.c or '') or 'span' in (D.c or '')):
                    return self.index(self.lval(e['o'], S), T('int', 0))
                if D.n in ('back', 'front'):
                    return T('idx', self.lval(e['o'], S), T('str', D.n))
            if D.q in MOVELIKE and len(e['a']) == 1:
                return self.lval(e['a'][0], S)
            r = self.call(e, S, want_lv=True)
            return r
        return self.ev(e, S)

    def field(self, b, D):
        if b.k == 'ite':
            return self.ite(b.a[1], self.field(b.a[2], D), self.field(b.a[3], D))
        if b.k == 'rec':
            for fq, v in b.a[2]:
                if fq == D.q:
                    return v
        q = D.q
        if not D.f and D.n in ('first', 'second'):
            q = D.n
            if b.k == 'ctor' and b.a[1].startswith('std::pair') and len(b.a[2]) == 2:
                return b.a[2][0 if q == 'first' else 1]
        return T('fld', b, q, 0)

    def index(self, b, i):
        if b.k == 'lv' and b.a[1] in self.linit and self.linit[b.a[1]].k == 'par':
            b = self.linit[b.a[1]]
        if b.k == 'ite':
            return self.ite(b.a[1], self.index(b.a[2], i), self.index(b.a[3], i))
        if i.k == 'iv':
            L = self.loops[i.a[1]]
            if L.range is not None and (L.range is b or b.k == 'fld' and L.range.k == 'fld' and samepath(L.range, b)):
                return T('elem', L.range, L.id)
        return T('idx', b, i)

    def binding(self, D, S):
        base = S.env.get(D.of.u)
        if base is None:
            return T('lv', D.u, D.n)
        if base.k == 'alias':
            base = base.a[1]
        return self.component(base, D.bi)

    def component(self, base, i):
        if base.k == 'ite':
            return self.ite(base.a[1], self.component(base.a[2], i), self.component(base.a[3], i))
        if base.k == 'ctor' and len(base.a[2]) > i and base.a[1].startswith(('std::pair', 'std::tuple')):
            return base.a[2][i]
        return T('fld', base, {0: 'first', 1: 'second'}.get(i, 'b%s' % i), 0)

    def smart(self, D):
        c = D.c or ''
        return c.startswith(SMART)

    # ---------- expressions ----------
    @property
    def tu(self):
        return self.frames[-1].F.tu

    def evl(self, es, S):
        return [self.ev(x, S) for x in es]

    def ev(self, e, S):
        if e is None:
            return T('none')
        if e.get('l'):
            self.curline = e['l']
        k = e['k']
        tu = self.tu
        if k == 'int':
            return T('int', int(e['v']))
        if k == 'float':
            return T('flt', e['v'])
        if k == 'str':
            return T('str', e['v'])
        if k == 'bool':
            return TRUE if e['v'] else FALSE
        if k == 'char':
            return T('char', e['v'])
        if k == 'null':
            return NULL
        if k == 'this':
            return self.frames[-1].this
        if k == 'enum':
            D = tu.decls[e['d']]
            return T('enum', D.q)
        if k == 'fn':
            self.fnD[tu.decls[e['d']].q] = tu.decls[e['d']]
            return T('fn', tu.decls[e['d']].q)
        if k == 'var':
            D = tu.decls[e['d']]
            if D.k == 'binding':
                return self.read(S, self.binding(D, S))
            v = S.env.get(D.u)
            if v is not None:
                return self.read(S, v.a[1]) if v.k == 'alias' else v
            if D.k in ('global', 'sfield', 'slocal'):
                g = self.P.gvars.get(D.u)
                if g and D.t.startswith('const') and D.k != 'slocal':
                    c = self.constval(g)
                    if c is not None:
                        return c
                return self.read(S, T('fld', T('static'), D.q if D.k != 'slocal' else str(D.u), 0))
            return T('var', D.n, str(D.u))
        if k == 'mem':
            return self.read(S, self.lval(e, S))
        if k == 'memfn':
            return T('memfn', tu.decls[e['d']].q, self.ev(e['b'], S))
        if k == 'bin':
            op = e['op']
            a = self.ev(e['a'][0], S)
            if op in ('&&', '||'):
                ca = self.tobdd(a)
                g0 = S.g
                S2 = S.copy()
                S2.g = self.B.AND(g0, ca if op == '&&' else self.B.NOT(ca))
                b = self.ev(e['a'][1], S2)
                cb = self.tobdd(b)
                S1 = S.copy()
                S1.g = self.B.AND(g0, self.B.NOT(ca) if op == '&&' else ca)
                M = self.merge(S1, S2)
                if M is not None and M.g:
                    S.set(M)
                else:
                    S.g = 0
                return self.bval(self.B.AND(ca, cb) if op == '&&' else self.B.OR(ca, cb))
            b = self.ev(e['a'][1], S)
            return self.binop(op, a, b)
        if k == 'un':
            op = e['op']
            if op in ('++', '--', '++post', '--post'):
                lv = self.lval(e['a'][0], S)
                old = self.read(S, lv)
                new = self.add(old, T('int', 1), 1 if '+' in op else -1)
                self.store(S, lv, new, op)
                return old if op.endswith('post') else new
            if op == '!':
                return self.bval(self.B.NOT(self.tobdd(self.ev(e['a'][0], S))))
            a = self.ev(e['a'][0], S)
            if op in ('*', '&', '+', '__extension__'):
                return a
            if op == '-':
                if a.k == 'flt':
                    return T('flt', -a.a[1])
                return self.mul(T('int', -1), a)
            return T('op', op, a)
        if k == 'asg':
            op = e['op']
            rhs = self.ev(e['a'][1], S)
            lv = self.lval(e['a'][0], S)
            if op != '=':
                old = self.read(S, lv)
                o = op[:-1]
                if o in ('&', '|') and (self.boolish(old) or self.boolish(rhs) or self.boolnode(e['a'][0])):
                    rhs = self.binop('&&' if o == '&' else '||', old, rhs)
                else:
                    rhs = self.binop(o, old, rhs)
            self.store(S, lv, rhs, op)
            return rhs
        if k == 'idx':
            lv = self.lval(e, S)
            if lv.k == 'idx' and lv.a[1].k == 'par' and self.pointer(lv.a[1]):
                self.event(S, 'peek', 'index', list(lv.a[1:]))
            return self.read(S, lv)
        if k == 'cond':
            c = self.tobdd(self.ev(e['a'][0], S))
            g0 = S.g
            S1, S2 = S.copy(), S.copy()
            S1.g = self.B.AND(g0, c)
            S2.g = self.B.AND(g0, self.B.NOT(c))
            a = self.ev(e['a'][1], S1) if S1.g else None
            b = self.ev(e['a'][2], S2) if S2.g else None
            M = self.merge(S1, S2)
            if M is not None and M.g:
                S.set(M)
            else:
                S.g = 0
            if a is None or S1.g == 0 and b is not None:
                return b if b is not None else T('none')
            if b is None or S2.g == 0:
                return a
            return self.ite(c, a, b)
        if k in ('defarg', 'definit'):
            return self.ev(e['a'][0], S)
        if k == 'cast':
            a = self.ev(e['a'][0], S)
            if e['ck'] == 'CXXDynamicCastExpr':
                return T('dyncast', e['t'] and tu.types[e['t']], a)
            return a
        if k == 'ctor':
            return self.ctor(e, S)
        if k == 'call':
            return self.call(e, S)
        if k == 'lambda':
            return self.mklambda(e, S)
        if k == 'init':
            a = self.evl(e['a'], S)
            return T('init', tu.types[e['t']] if e.get('t', -1) is not None and e.get('t', -1) >= 0 else '', tuple(a))
        if k == 'new':
            a = self.evl(e['a'], S)
            if len(a) == 1 and a[0].k == 'ctor':
                a = list(a[0].a[2])
            ty = tu.types[e['t']]
            E = self.event(S, 'new', ty, a)
            return T('new', ty, tuple(a), E.seq)
        if k == 'delete':
            a = self.ev(e['a'][0], S)
            self.event(S, 'delete', 'delete', [a])
            return T('none')
        if k == 'throw':
            a = self.evl(e['a'], S)
            self.event(S, 'throw', tu.types[e['t']] if 't' in e else 'rethrow', a)
            self.throwg = self.B.OR(self.throwg, S.g)
            S.g = 0
            return T('none')
        if k == 'sizeof':
            return T('sizeof', tu.types[e['t']])
        if k == 'zero':
            return T('int', 0)
        a = self.evl(e.get('a', []), S)
        return T('?', e.get('cls', k), tuple(a), e.get('n', ''))

    def constval(self, g):
        T_, gv = g
        i = gv['v'].get('i')
        if not i:
            return None
        i = strip(i, T_)
        if i['k'] == 'int':
            return T('int', int(i['v']))
        if i['k'] == 'float':
            return T('flt', i['v'])
        if i['k'] == 'str':
            return T('str', i['v'])
        if i['k'] == 'bool':
            return TRUE if i['v'] else FALSE
        if i['k'] == 'ctor' and len([x for x in i['a'] if x['k'] != 'defarg']) == 1 and i['a'][0]['k'] == 'str':
            return T('str', i['a'][0]['v'])
        if i['k'] == 'un' and i['op'] == '-' and i['a'][0]['k'] in ('int', 'float'):
            v = i['a'][0]['v']
            return T('int', -int(v)) if i['a'][0]['k'] == 'int' else T('flt', -v)
        return None

    def mklambda(self, e, S):
        caps = []
        tu = self.tu
        env = {}
        for c in e['caps']:
            if 'd' in c:
                D = tu.decls[c['d']]
                if 'init' in c:
                    env[D.u] = self.ev(c['init'], S)
                elif not c['ref']:
                    v = S.env.get(D.u)
                    if v is not None:
                        env[D.u] = v
        lam = T('lambda', (id(tu), e['l'], e.get('d', -1)), self.frames[-1].this)
        self.lams[lam] = (e, self.frames[-1], env)
        return lam

    def ctor(self, e, S):
        tu = self.tu
        D = tu.decls[e['d']] if 'd' in e else None
        a = e.get('a', [])
        real = [x for x in a if x['k'] != 'defarg']
        ty = tu.types[e['t']] if e.get('t', -1) >= 0 else ''
        if D is not None and D.cm and len(a) == 1:
            return self.ev(a[0], S)
        base = ty[6:] if ty.startswith('const ') else ty
        if base.startswith(SMART) and len(real) == 1:
            return self.ev(real[0], S)
        if base.startswith(SMART) and len(real) == 0:
            return NULL
        if len(real) == 1 and base.split('<')[0] in ('std::string', 'std::basic_string', 'std::string_view', 'std::basic_string_view', 'std::span',
                                                       'precice::string_view', 'precice::span', 'std::function', 'std::filesystem::path', 'Eigen::VectorXd', 'Eigen::Map', 'std::reverse_iterator'):
            if base.startswith('std::basic_string') or 'string' in base or 'span' in base or 'function' in base or 'path' in base:
                return self.ev(real[0], S)
        if len(real) == 0 and ('string' in base.split('<')[0]):
            return T('str', '')
        args = []
        lvs = []
        for i, x in enumerate(a):
            args.append(self.ev(x, S))
        if base.split('<')[0] in ('std::pair', 'std::tuple') and D is not None:
            return T('ctor', base, tuple(args))
        # project type: constructor event
        if D is not None and D.f:
            E = self.event(S, 'ctor', D.c or ty, args, d=D)
            for fq in self.eff.mod_call(D):
                pass
            return T('ctor', base, tuple(args))
        if len(real) == 0:
            return T('ctor', base, ())
        return T('ctor', base, tuple(args))

    # ---------- calls ----------
    def adapted(self, R):
        """range behind a map_keys/map_values adaptor and the projection of its elements"""
        if R.k == 'adapt':
            i = {'values': 1, 'keys': 0}[R.a[2]]
            return R.a[1], lambda el: self.component(el, i)
        return R, lambda el: el

    def rng_of(self, a, b):
        d = self.add(b, a, -1)
        if d.k == 'size' and d.a[1] is a:
            return a
        if a.k in ('begin',) and b.k in ('end',) and a.a[1] is b.a[1]:
            return a.a[1]
        return None

    def stamp(self, S, D):
        if not S.ep:
            return 0
        r = self.eff.ref_call(D)
        s = tuple(sorted((f, S.ep[f]) for f in r if S.ep.get(f)))
        return hash_stamp(s) if s else 0

    def call(self, e, S, want_lv=False):
        tu = self.tu
        line = e['l']
        D = tu.decls[e['d']] if 'd' in e else None
        mk = e.get('m')
        if D is not None and D.k == 'conv' and not D.f and e.get('o') is not None and D.n != 'operator bool':
            return self.ev(e['o'], S)
        if D is None:
            fe = self.ev(e['fe'], S) if e.get('fe') else T('none')
            o = self.ev(e['o'], S) if e.get('o') else None
            args = self.evl(e['a'], S)
            if fe.k == 'lambda':
                return self.call_lambda(fe, args, S)
            self.curline = line
            E = self.event(S, 'call', str(fe), ([o] if o is not None else []) + args)
            return T('call', '?' + str(fe), tuple(args), E.seq)
        n, q = D.n, D.q
        ext = not D.f
        op = e.get('op')
        # logging calls are not effects of interest
        if D.c and D.c.startswith('precice::logging::') and n in ('info', 'debug', 'trace', 'warning', 'error'):
            if mk in ('INFO', 'DEBUG', 'TRACE', 'WARN') or True:
                if n == 'warning':
                    self.event(S, 'warn', 'warn', [])
                return T('none')
        if q == 'fmt::format':
            return T('call', q, tuple(self.evl(e['a'], S)), 0)
        if q == 'precice::utils::format_or_error' or q.startswith('fmt::') and n not in ('print', 'println'):
            # message text: evaluated for its gates only, never an effect
            return T('msg')
        if q == 'precice::logging::logErrorAndThrow' or (D.nr and not ext and 'Throw' in n):
            self.curline = line
            self.event(S, 'throw', (D.ta or ['?'])[0], [], d=D)
            self.throwg = self.B.OR(self.throwg, S.g)
            S.g = 0
            return T('none')
        if D.nr:
            self.curline = line
            self.event(S, 'abort', q, [], d=D)
            self.throwg = self.B.OR(self.throwg, S.g)
            S.g = 0
            return T('none')
        if ext and q in MOVELIKE and len(e['a']) == 1:
            return self.ev(e['a'][0], S)
        if (ext or (D.c or '').startswith('precice::span')) and e.get('o') is not None:
            r = self.std_member(e, D, S)
            if r is not None:
                return r
        elif ext:
            r = self.std_free(e, D, S)
            if r is not None:
                return r
        if op == '|' and ext and len(e['a']) == 2 and 'range_detail' in q:
            w = self.ev(e['a'][1], S)
            for k in ('values', 'keys'):
                if 'map_' + k in str(w):
                    return T('adapt', self.ev(e['a'][0], S), k)
        # generic: evaluate object and arguments
        obj = None
        objlv = None
        if e.get('o') is not None and not D.st:
            if ext:
                objlv = self.lval(e['o'], S)
                obj = self.read(S, objlv)
            else:
                obj = self.lval(e['o'], S)
                if obj.k == 'lv':
                    objlv = obj
                    v = self.read(S, obj)
                    if v.k not in ('ctor', 'upd', 'out', 'init', 'var'):
                        obj = v
                    elif v.k in ('ctor', 'upd', 'init', 'var'):
                        obj = v if D.cst else v
                elif obj.k == 'fld':
                    objlv = obj
                    obj = self.read(S, obj)
        elif e.get('o') is not None:
            self.ev(e['o'], S)
        if obj is not None and obj.k == 'lambda' and n == 'operator()':
            return self.call_lambda(obj, self.evl(e['a'], S), S, D)
        args, lvs = [], []
        for i, a in enumerate(e['a']):
            pt = D.ps[i] if i < len(D.ps) else ''
            if pt.endswith('&') or pt.endswith('*'):
                lv = self.lval(a, S)
                lvs.append(lv)
                args.append(self.read(S, lv))
            else:
                lvs.append(None)
                args.append(self.ev(a, S))
        self.curline = line
        if op in ('==', '!=', '<', '>', '<=', '>=') and (ext or q.startswith('precice::mesh') is False) and ext:
            x = ([obj] if obj is not None else []) + args
            if len(x) == 2:
                return self.bval(self.cmp(op, x[0], x[1]))
        if op == '+' and ext and not q.startswith('Eigen'):
            x = ([obj] if obj is not None else []) + args
            if len(x) == 2:
                if 'string' in q or 'string' in (D.t or '') or any(y.k in ('str', 'cat') for y in x):
                    return T('cat', *x)
                return self.binop('+', *x)
        if ext and op in ('-', '*', '+', '/') and len(([obj] if obj is not None else []) + args) == 2:
            x = ([obj] if obj is not None else []) + args
            return self.binop(op, *x)
        if D.c == 'precice::utils::DoubleAggregator' and obj is not None and (objlv is None or objlv.k in ('lv', 'fld')):
            # exact-summation double: arithmetic value
            if n in ('value', 'operator double') and not args:
                return obj
            if objlv is not None and len(args) == 1 and n in ('add', 'operator+=', 'operator-=', 'operator='):
                v = args[0] if n == 'operator=' else self.binop('-' if n == 'operator-=' else '+', obj, args[0])
                self.store(S, objlv, v)
                return v
        if obj is None and len(args) == 2 and n in ('operator+', 'operator-') and q.startswith('precice::utils::') and any('DoubleAggregator' in p for p in D.ps):
            return self.binop(n[-1], *args)
        F = self.P.funcs.get(D.u)
        target = F
        if D.v and e.get('vd'):
            target = self.devirtualise(D, obj)
        if target is not None and self.may_inline(target, D):
            return self.inline(target, obj, objlv, args, lvs, S, e, want_lv)
        return self.opaque(e, D, obj, objlv, args, lvs, S)

    def devirtualise(self, D, obj):
        if D.q in self.devirt:
            return self.P.func(self.devirt[D.q])
        ov = [u for u in self.P.overriders.get(D.u, ()) if u in self.P.funcs]
        if D.pv and len(ov) == 1:
            return self.P.funcs[ov[0]]
        if not ov and D.u in self.P.funcs:
            return self.P.funcs[D.u]
        if obj is not None and obj.k == 'this':
            pass
        return None

    def may_inline(self, F, D):
        if F.body is None:
            return False
        if F.d.q in self.stack:
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        g = is_getter(self.P, F)
        if g is not None:
            return True
        return self.policy(self, F, D)

    def fieldtype(self, q):
        if not hasattr(self.P, 'fieldtypes'):
            self.P.fieldtypes = {D.q: D.t for D in self.P.decl.values() if D.k == 'field'}
        return self.P.fieldtypes.get(q) or ''

    def pack(self, t, S):
        """a local aggregate filled field by field has the form of one built by an initialiser list"""
        if t.a[2] or t.a[1].startswith(('std::', 'boost::', 'Eigen::')):
            return t
        for k in S.heap:
            if k[0] is t:
                c = self.P.classes.get(k[1].rsplit('::', 1)[0])
                if c is None or not c['fields'] or c['bases']:
                    return t
                v = [S.heap.get((t, c['tu'].decls[f['d']].q)) for f in c['fields']]
                return t if None in v else T('init', t.a[1], tuple(v))
        return t

    def opaque(self, e, D, obj, objlv, args, lvs, S):
        args = [self.lamsum(x, S) if x.k == 'lambda' else self.pack(x, S) if x.k == 'ctor' else x for x in args]
        al = ([obj] if obj is not None else []) + args
        E = self.event(S, 'call', D.q, al, d=D, node=e)
        E.obj = obj
        ext = not D.f
        pure = D.cst or (obj is None and ext and D.q.startswith(PURE_FREE_PREFIX)) or \
            (obj is None and not ext and D.q.startswith(('precice::math::', 'precice::utils::'))) or ext and ext_read(D)
        if not pure and not ext and obj is not None and D.t != 'void' and not D.v and D.u in self.P.funcs and not self.eff.mod_call(D):
            pure = True
        if pure and VOLATILE.search(D.q):
            pure = False
        st = self.stamp(S, D) if pure and not ext else (0 if pure else E.seq)
        nm = D.q
        if ext and D.ta and D.n in ('holds_alternative', 'get', 'get_if', 'any_cast'):
            nm = D.q + '[' + str(D.ta[0]).split('::')[-1] + ']'
        elif D.q.startswith('precice::math::') and D.ta and any(re.match(r'-?\d+[ULul]*$', str(x)) for x in D.ta):
            nm = D.q + '[' + ','.join(str(x) for x in D.ta if re.match(r'-?\d+[ULul]*$', str(x))) + ']'      # the number it is instantiated with
        res = T('call', nm, tuple(al), st)
        E.val = res
        # effects
        if not ext:
            for fq in self.eff.mod_call(D):
                self.bump(S, fq)
        for i, lv in enumerate(lvs):
            if lv is None or i >= len(D.ps) or forwards(D):
                continue
            t = D.ps[i]
            if t.startswith('const ') or t.endswith('&&') or re.match(r'(precice::)?(com::)?Communication &$', t):
                continue        # using a communicator does not make it another one
            if lv.k == 'lv':
                v = S.env.get(lv.a[1])
                ty = t.rstrip('&* ')
                if t.endswith('&') or (t.endswith('*') and v is not None and v.k not in ('fld', 'par', 'elem', 'new')):
                    if v is not None and v.k == 'alias':
                        continue
                    if v is not None and v.k in ('fld', 'elem', 'par', 'new') and t.endswith('&'):
                        # object reached through a pointer-like local: contents may change, identity does not
                        continue
                    S.env[lv.a[1]] = T('out', E.seq, i, D.q)
            elif lv.k == 'fld' and t.endswith('&'):
                if POINTER.search(self.fieldtype(lv.a[2])) and not POINTER.search(t.rstrip('& ')):
                    continue    # what it points to may change, not the pointer
                if lv.a[1].k != 'static':
                    self.bump(S, lv.a[2])
                    S.heap[(lv.a[1], lv.a[2])] = T('out', E.seq, i, D.q)
        if obj is not None and not D.cst and objlv is not None and objlv.k == 'lv' and not pure:
            v = S.env.get(objlv.a[1])
            own = v is not None and e['o']['k'] == 'var' and re.match(r'(const )?Eigen::(Matrix|Vector|RowVector|Array)\w*(<.*>)?$', self.tu.decls[e['o']['d']].t or '')
            if v is not None and (own or v.k in ('ctor', 'upd', 'init', 'out', 'var', 'str', 'cat', 'poly')):
                S.env[objlv.a[1]] = self.updated(v, D, args)
        if obj is not None and not D.cst and ext and objlv is not None and objlv.k in ('fld',) and not pure:
            old = self.read(S, objlv)
            self.bump(S, objlv.a[2])
            S.heap[(objlv.a[1], objlv.a[2])] = self.updated(old, D, args)
        return res

    def updated(self, old, D, args):
        if len(args) == 1 and re.search(r'\bMatrixBase(<.*>)?::operator[-+]=$', D.q):
            return self.binop(D.n[8], old, args[0])     # a -= b leaves a - b behind
        return T('upd', old, D.n, tuple(args))

    def std_member(self, e, D, S):
        """member functions of library types with a fixed meaning"""
        n = D.n
        c = D.c or ''
        a = e['a']
        if c.startswith('precice::span') and n not in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data', 'operator[]'):
            o = self.ev(e['o'], S)
            return T('call', 'span::' + n, (o,) + tuple(self.evl(a, S)), 0)
        if n in ('operator->', 'operator*', 'get', 'value', 'lock') and not a and self.smart(D):
            return self.ev(e['o'], S)
        if '__normal_iterator' in c and (n == 'operator*' and not a or n == 'operator[]' and len(a) == 1):
            it = self.ev(e['o'], S)
            if it.k in ('poly', 'phi', 'begin', 'out'):
                return self.at(it if not a else self.add(it, self.ev(a[0], S)))
        if n in ('operator*', 'operator->') and not a and ('iterator' in c.lower() or '_Iterator' in c or 'iterator' in c):
            return self.ev(e['o'], S)
        if n in ('operator bool', 'has_value') and self.smart(D):
            return self.bval(self.tobdd(self.ev(e['o'], S)))
        if n in ('size', 'length') and not a:
            return T('size', self.ev(e['o'], S))
        if n == 'empty' and not a:
            return self.bval(self.cmp('==', T('size', self.ev(e['o'], S)), T('int', 0)))
        if n in BEGIN and not a:
            return T('begin', self.ev(e['o'], S))
        if n in END and not a:
            return T('end', self.ev(e['o'], S))
        if n == 'data' and not a and not c.startswith('Eigen'):
            return self.ev(e['o'], S)
        if len(a) == 1 and (n in ('operator[]', 'at') and '__normal_iterator' not in c or n in ('operator()', 'coeff', 'coeffRef') and c.startswith('Eigen')):
            return self.read(S, self.lval(e, S))
        if n in ('count', 'contains') and len(a) == 1 and ('map' in c or 'set' in c):
            o = self.ev(e['o'], S)
            return T('contains', o, self.ev(a[0], S))
        if n == 'find' and len(a) == 1 and ('map' in c or 'set' in c):
            o = self.ev(e['o'], S)
            return T('find', o, self.ev(a[0], S))
        if '__normal_iterator' in c and n in ('operator++', 'operator+=', 'operator--', 'operator-='):
            lv = self.lval(e['o'], S)
            old = self.read(S, lv)
            unary, sg = n[-1] == n[-2], 1 if n[-2] == '+' or n[-1] == '+' else -1
            d = lambda: T('int', 1) if unary else self.ev(a[0], S)
            if old.k in ('poly', 'phi', 'begin', 'out', 'end') and (lv.k == 'lv' and (sg > 0 or old.k != 'phi')):
                S.env[lv.a[1]] = self.add(old, d(), sg)
                return old if unary and a else S.env[lv.a[1]]
            if old.k in ('begin', 'end', 'poly') and lv.k not in ('lv', 'par', 'fld'):
                return old if unary and a else self.add(old, d(), sg)
        if n in ('operator=',) and len(a) == 1:
            rhs = self.ev(a[0], S)
            lv = self.lval(e['o'], S)
            self.curline = e['l']
            self.store(S, lv, rhs)
            return rhs
        if n == 'reset' and self.smart(D):
            rhs = self.ev(a[0], S) if a and a[0]['k'] != 'defarg' else NULL
            lv = self.lval(e['o'], S)
            self.curline = e['l']
            self.store(S, lv, rhs)
            return T('none')
        if n in ('operator+=',) and len(a) == 1 and ('string' in c):
            lv = self.lval(e['o'], S)
            rhs = self.ev(a[0], S)
            self.store(S, lv, T('cat', self.read(S, lv), rhs))
            return rhs
        if n in ('operator++', 'operator--'):
            lv = self.lval(e['o'], S)
            old = self.read(S, lv)
            if lv.k == 'lv':
                S.env[lv.a[1]] = T('upd', old, n, ())
            return old
        if n == 'emplace' and self.smart(D):
            rhs = T('new', c, tuple(self.evl(a, S)), 0)
            self.store(S, self.lval(e['o'], S), rhs)
            return rhs
        return None

    def at(self, it):
        """element an iterator points to"""
        d = self.arith(it)
        bs = [(m, x) for m in d for x in m if x.k == 'begin']
        if len(bs) == 1 and bs[0][0] == (bs[0][1],) and d[bs[0][0]] == 1:
            return self.index(bs[0][1].a[1], self.add(it, bs[0][1], -1))
        return T('at', it)

    def std_free(self, e, D, S):
        q, n, a = D.q, D.n, e['a']
        ns = q.rsplit('::', 1)[0]
        if n in ('make_shared', 'make_unique') and ns == 'std':
            args = self.evl(a, S)
            ty = (D.ta or ['?'])[0]
            self.curline = e['l']
            E = self.event(S, 'new', ty, args)
            return T('new', ty, tuple(args), E.seq)
        if n in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
            x = self.ev(a[0], S)
            return T('dyncast', (D.ta or ['?'])[0], x) if n.startswith('dynamic') else x
        if ns == 'std' and n in ('advance', 'next', 'prev') and (D.ta or a) and any('__normal_iterator' in p for p in D.ps[:1]):
            lv = self.lval(a[0], S)
            v = self.read(S, lv)
            if v.k in ('poly', 'phi', 'begin', 'out', 'end'):
                v = self.add(v, self.ev(a[1], S) if len(a) > 1 else T('int', 1), -1 if n == 'prev' else 1)
                if n != 'advance':
                    return v
                if lv.k == 'lv':
                    S.env[lv.a[1]] = v
                    return T('none')
        if n in BEGIN and len(a) == 1:
            return T('begin', self.ev(a[0], S))
        if n in END and len(a) == 1:
            return T('end', self.ev(a[0], S))
        if n in ('size',) and len(a) == 1:
            return T('size', self.ev(a[0], S))
        if n == 'empty' and len(a) == 1:
            return self.bval(self.cmp('==', T('size', self.ev(a[0], S)), T('int', 0)))
        if n == 'make_pair' or n == 'make_tuple' or n == 'tie':
            return T('ctor', 'std::pair' if n == 'make_pair' else 'std::tuple', tuple(self.evl(a, S)))
        if n == 'get' and len(a) == 1 and D.ta:
            i = D.ta[0]
            b = self.ev(a[0], S)
            if b.k == 'ctor' and i.isdigit() and int(i) < len(b.a[2]):
                return b.a[2][int(i)]
            if i.isdigit():
                return self.component(b, int(i))
            return T('fld', b, 'b' + i, 0)
        if n in ('min', 'max') and len(a) == 2:
            x, y = self.ev(a[0], S), self.ev(a[1], S)
            if repr(x) > repr(y):
                x, y = y, x
            return T('call', 'std::' + n, (x, y), 0)
        if n in ('abs', 'fabs') and len(a) == 1:
            return T('call', 'std::abs', (self.ev(a[0], S),), 0)
        if n == 'swap' and len(a) == 2:
            l1, l2 = self.lval(a[0], S), self.lval(a[1], S)
            v1, v2 = self.read(S, l1), self.read(S, l2)
            self.store(S, l1, v2)
            self.store(S, l2, v1)
            return T('none')
        if n == 'exchange' and len(a) == 2 and ns == 'std':
            l1 = self.lval(a[0], S)
            v1 = self.read(S, l1)
            self.store(S, l1, self.ev(a[1], S))
            return v1
        if n == 'mem_fn' and len(a) == 1:
            return self.ev(a[0], S)
        if n in ('for_each', 'all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'transform', 'transform_reduce', 'accumulate', 'remove_if', 'copy_if',
                 'partition', 'stable_partition', 'max_element', 'min_element', 'sort', 'stable_sort', 'generate', 'find', 'count', 'copy'):
            return self.algorithm(n, e, D, S)
        if e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
            x, y = self.ev(a[0], S), self.ev(a[1], S)
            return self.bval(self.cmp(e['op'], x, y))
        return None

    def algorithm(self, n, e, D, S):
        args = self.evl(e['a'], S)
        if len(args) < 2:
            return None
        R = None
        rest = None
        if len(args) >= 2:
            R = self.rng_of(args[0], args[1])
            rest = args[2:]
            if R is None:
                if args[0].k not in ('begin', 'end', 'int', 'poly'):
                    # range version (boost / std::ranges)
                    if D.q.startswith('boost'):
                        R, rest = args[0], args[1:]
                if R is None:
                    R, rest = T('range', args[0], args[1]), args[2:]
        if n == 'find':
            return T('find', R, rest[0]) if rest else None
        if n == 'count':
            return T('contains', R, rest[0]) if rest else None
        lam = None
        if n == 'transform_reduce':
            f = [x for x in rest if x.k in ('lambda', 'fn')]
            if len(f) != 2 or len(args) != 5 or f[0].k != 'lambda':
                return None
            lam = f[0]
        for x in rest:
            if x.k in ('lambda', 'fn') and lam is None:
                lam = x
        if lam is None or n in ('sort', 'stable_sort', 'max_element', 'min_element'):
            lv = self.lval(e['a'][0], S)
            if n in ('sort', 'stable_sort'):
                args = [self.lamsum(x, S) if x.k == 'lambda' else x for x in args]
            E = self.event(S, 'call', D.q, args, d=D, node=e)
            if n in ('sort', 'stable_sort'):
                x = args[0]
                if x.k == 'begin':
                    self.mutate_term(S, x.a[1], n)
            if n == 'copy' and len(rest) == 1 and rest[0].k in ('begin', 'call'):
                if rest[0].k == 'begin':
                    self.mutate_term(S, rest[0].a[1], 'copyfrom', (R,))
            return T('call', D.q, tuple(args), E.seq if n in ('sort', 'stable_sort') else 0)
        R, proj = self.adapted(R)
        L = Loop(len(self.loops), 'range', R, self.frames[-1].F.file, e['l'])
        self.loops.append(L)
        L.entry = S.g
        el = proj(T('elem', R, L.id))
        g0 = S.g
        thr0 = self.throwg
        self.throwg = 0
        self.loopstack.append(L)
        if lam.k == 'lambda':
            self.havoc_loop(L, self.lams[lam][0]['body'], S, self.lams[lam][1])
            pa = [el]
            if n == 'accumulate':
                pa = [T('phi', L.id, 'acc'), el]
            if n == 'transform' and len(rest) >= 2 and rest[0].k == 'begin':
                pa = [el, T('elem', rest[0].a[1], L.id)] if len(args) == 5 else [el]
            if n == 'generate':
                pa = []
            if n == 'transform_reduce':
                pa = [T('phi', L.id, 'acc'), self.callable(f[1], [el], S, e)]
            r = self.call_lambda(lam, pa, S)
        else:
            r = self.callable(lam, [el], S, e)
        self.loopstack.pop()
        gt = self.B.AND(self.throwg, g0)
        self.throwg = thr0
        if gt:
            t = self.leave_cond(gt, L, g0)
            g0 = self.B.AND(g0, self.B.NOT(t))
            self.throwg = self.B.OR(self.throwg, self.B.AND(L.entry, t))
            self.rawthrow = self.B.OR(self.rawthrow, gt)
        S.g = g0
        if n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if'):
            p = self.tobdd(r)
            p = self.constrain(p, g0)
            if n in ('all_of', 'find_if_not'):
                p = self.B.NOT(p)
            pc = self.canon_pred(p, L)
            if n in ('find_if', 'find_if_not'):
                return T('find_if', R, pc)
            a = self.B.atom(T('any', R, pc)) if pc > 1 else (self.B.NOT(self.cmp('==', T('size', R), T('int', 0))) if pc == 1 else 0)
            if n == 'any_of':
                return self.bval(a)
            if n in ('all_of', 'none_of'):
                return self.bval(self.B.NOT(a))
            return T('call', 'std::count_if', (R, T('bdd', pc)), 0)
        if n in ('accumulate', 'transform_reduce') and lam.k == 'lambda' and rest:
            return T('lout', L.id, 'acc', rest[0], r)
        self.event(S, 'call', D.q, args, d=D, node=e)
        if n == 'transform':
            out = rest[-2] if len(rest) >= 2 else None
            if out is not None and out.k == 'begin':
                self.mutate_term(S, out.a[1], 'transform', (R, r))
        return T('algo', n, R, r)

    def callable(self, f, args, S, e):
        if f.k == 'lambda':
            return self.call_lambda(f, args, S)
        D = self.fnD.get(f.a[1]) if f.k == 'fn' else None
        if D is None:
            return T('call', f.a[1], tuple(args), 0)
        obj = None
        if D.c and not D.st:
            obj, args = args[0], args[1:]
        F = self.P.funcs.get(D.u)
        e2 = {'k': 'call', 'l': e['l'], 'a': [], 'vd': 1 if D.v else 0}
        if F is not None and not D.v and self.may_inline(F, D):
            return self.inline(F, obj, None, args, [None] * len(args), S, e2)
        return self.opaque(e2, D, obj, None, args, [None] * len(args), S)

    def mutate_term(self, S, t, what, args=()):
        for u, v in list(S.env.items()):
            if v is t:
                S.env[u] = T('upd', v, what, args)
        for k, v in list(S.heap.items()):
            if v is t:
                S.heap[k] = T('upd', v, what, args)
        if t.k == 'fld':
            k = (t.a[1], t.a[2])
            if k not in S.heap:
                self.bump(S, t.a[2])
                S.heap[k] = T('upd', t, what, args)

    def canon_pred(self, p, L):
        """rename the loop's element in a predicate so that equal predicates of different loops are equal"""
        lbl = '$%d' % len(self.loopstack)
        memo = {}

        def ren(t):
            if isinstance(t, T):
                r = memo.get(t.id)
                if r is not None:
                    return r
                a = t.a
                if a[0] == 'elem' and a[2] == L.id:
                    r = T('elem', ren(a[1]), lbl)
                elif a[0] == 'iv' and a[1] == L.id:
                    r = T('iv', lbl)
                elif a[0] in ('bdd',):
                    r = T('bdd', self.B.mapatoms(a[1], lambda x: self.B.atom(ren(x))))
                elif a[0] == 'any':
                    r = T('any', ren(a[1]), self.B.mapatoms(a[2], lambda x: self.B.atom(ren(x))))
                elif a[0] == 'ite':
                    r = T('ite', self.B.mapatoms(a[1], lambda x: self.B.atom(ren(x))), ren(a[2]), ren(a[3]))
                else:
                    r = T(*[ren(x) for x in a])
                memo[t.id] = r
                return r
            if isinstance(t, tuple):
                return tuple(ren(x) for x in t)
            return t
        return self.B.mapatoms(p, lambda x: self.B.atom(ren(x)))

    def lamsum(self, lam, S):
        """summary of a callable passed to an unknown function: effects inside a pseudo loop, result as a term"""
        if lam not in self.lams:
            return lam
        e = self.lams[lam][0]
        L = Loop(len(self.loops), 'lambda', None, self.frames[-1].F.file, e['l'])
        self.loops.append(L)
        L.entry = S.g
        S2 = S.copy()
        thr0, self.throwg = self.throwg, 0
        self.havoc_loop(L, e['body'], S2, self.lams[lam][1])
        self.loopstack.append(L)
        r = self.call_lambda(lam, [T('lp', i) for i in range(len(e['p']))], S2)
        self.loopstack.pop()
        self.rawthrow = self.B.OR(self.rawthrow, self.throwg)
        self.throwg = thr0
        for fq in self.eff.mod_node(e['body'], self.lams[lam][1].F.tu):
            self.bump(S, fq)
        for u in self.assigned(e['body'], self.lams[lam][1].F.tu):
            if u in S.env and S.env[u] is not S2.env.get(u):
                S.env[u] = T('out', self.uid(), 0, 'lambda')
        return T('lam', r)

    def call_lambda(self, lam, args, S, D=None):
        e, fr, env = self.lams[lam]
        name = 'lambda@%d' % e['l']
        if D is not None:       # generic lambda: the instantiation that is called
            for x in e.get('alts', ()):
                if fr.F.tu.decls[x['d']] is D:
                    e = dict(x, l=e['l'])
        if name in self.stack or len(self.stack) > self.maxdepth + 4:
            E = self.event(S, 'call', name, args)
            return T('call', name, tuple(args), E.seq)
        F2 = fr.F
        nf = Frame(F2, fr.this)
        self.frames.append(nf)
        self.stack.append(name)
        saved = {}
        for u, v in env.items():
            saved[u] = S.env.get(u)
            S.env[u] = v
        for i, p in enumerate(e['p']):
            D = F2.tu.decls[p]
            if i < len(args):
                S.env[D.u] = args[i] if not D.t.endswith('&') or args[i].k not in ('fld', 'elem', 'idx', 'lv') else T('alias', args[i])
        sb = self.brk
        self.brk = []
        self.stmt(e['body'], S)
        self.brk = sb
        r = self.finish_frame(nf, S)
        self.stack.pop()
        self.frames.pop()
        for u, v in saved.items():
            if v is not None:
                S.env[u] = v
        return r

    def finish_frame(self, fr, S):
        st = None
        val = None
        for (g, v, s) in fr.rets:
            s.g = g
            if st is None:
                st, val = s, v
            else:
                c = self.constrain(st.g, self.B.OR(st.g, g)) if st.g else 0
                st = self.merge(st, s)
                val = self.ite(c, val, v)
        if S.g:
            if st is None:
                st = S.copy()
            else:
                v = T('none')
                st = self.merge(st, S.copy())
        if st is None:
            S.g = 0
            return T('none')
        S.set(st)
        return val if val is not None else T('none')

    def inline(self, F, obj, objlv, args, lvs, S, e, want_lv=False):
        self.inlined.add(F.d.q)
        self.funcs_seen.add(F.d.u)
        al = ([obj] if obj is not None else []) + args
        D0 = self.tu.decls[e['d']] if e is not None and 'd' in e else F.d
        E = self.event(S, 'call', D0.q, al, d=D0, inlined=True, node=e)
        E.obj = obj
        this = obj if obj is not None else T('this')
        if objlv is not None and objlv.k == 'lv' and this.k in ('ctor', 'upd', 'out', 'init', 'var'):
            this = objlv if not F.d.cst else this
            # by-value local object: identify it by its variable
            this = T('lvobj', objlv.a[1], objlv.a[2])
        fr = Frame(F, this)
        self.frames.append(fr)
        self.stack.append(F.d.q)
        saved = {}
        for i, p in enumerate(F.params):
            if i < len(args):
                t = p.t
                if t.endswith('&') and lvs[i] is not None and not t.startswith('const '):
                    S.env[p.u] = T('alias', lvs[i])
                elif t.endswith('&') and lvs[i] is not None and lvs[i].k in ('fld',) and False:
                    S.env[p.u] = T('alias', lvs[i])
                else:
                    S.env[p.u] = args[i]
                    self.inlpar.add(p.u)
        sb = self.brk
        self.brk = []
        line = self.curline
        self.stmt(F.body, S, want_lv=want_lv)
        self.brk = sb
        if F.d.k == 'ctor':
            pass
        r = self.finish_frame(fr, S)
        self.stack.pop()
        self.frames.pop()
        self.curline = line
        E.val = r
        if objlv is not None and objlv.k == 'lv' and this.k == 'lvobj' and not F.d.cst:
            v = S.env.get(objlv.a[1])
            if v is not None:
                S.env[objlv.a[1]] = T('upd', v, F.d.n, tuple(args))
        return r

    # ---------- statements ----------
    def stmt(self, s, S, want_lv=False):
        if s is None or S.g == 0:
            return
        k = s['k']
        m = s.get('m')
        if s.get('l'):
            self.curline = s['l']
        if m in ('ASSERT', 'DEBUG', 'TRACE', 'INFO'):
            return
        if m == 'WARN':
            return
        if k == 'blk':
            for x in s['s']:
                self.stmt(x, S, want_lv)
            return
        if k == 'null':
            return
        if k == 'e':
            if not is_noop(s):
                self.ev(s['e'], S)
            return
        if k == 'decl':
            for v in s['v']:
                self.declvar(v, S)
            return
        if k == 'ret':
            fr = self.frames[-1]
            v = T('none')
            if s.get('e'):
                if want_lv or True:
                    ex = strip(s['e'], self.tu) if want_lv else s['e']
                    v = self.lval(ex, S) if want_lv else self.ev(s['e'], S)
            self.curline = s['l']
            if S.g:
                if len(self.frames) == 1:
                    v = self.pack(v, S) if v.k == 'ctor' else v
                    E = self.event(S, 'ret', 'return', [], val=v)
                fr.rets.append((S.g, v, S.copy()))
            S.g = 0
            return
        if k == 'if':
            if s.get('init'):
                self.stmt(s['init'], S)
            if s.get('cv'):
                self.declvar(s['cv'], S)
            c = self.tobdd(self.ev(s['c'], S))
            if S.g == 0:
                return
            g0 = S.g
            S1, S2 = S.copy(), S
            S1.g = self.B.AND(g0, c)
            self.stmt(s['th'], S1, want_lv)
            S2.g = self.B.AND(g0, self.B.NOT(c))
            if s.get('el'):
                self.stmt(s['el'], S2, want_lv)
            M = self.merge(S1, S2.copy())
            if M is None or M.g == 0:
                S.g = 0
            else:
                S.set(M)
            return
        if k == 'rfor':
            return self.loop_range(s, S)
        if k in ('for', 'while', 'do'):
            if k == 'do' and s['c']['k'] == 'bool' and not s['c']['v']:
                self.brk.append({'b': [], 'c': [], 'do': True})
                self.stmt(s['b'], S, want_lv)
                b = self.brk.pop()
                for x in b['b'] + b['c']:
                    M = self.merge(S.copy() if S.g else None, x)
                    if M is not None:
                        S.set(M)
                return
            return self.loop_gen(s, S)
        if k == 'brk':
            if self.brk:
                self.brk[-1]['b'].append(S.copy())
            S.g = 0
            return
        if k == 'cont':
            for b in reversed(self.brk):
                if not b.get('sw'):
                    b['c'].append(S.copy())
                    break
            S.g = 0
            return
        if k == 'switch':
            return self.switch(s, S)
        if k in ('case', 'default'):
            self.stmt(s['b'], S)
            return
        if k == 'try':
            S0 = S.copy()
            self.stmt(s['b'], S)
            res = S.copy() if S.g else None
            for h in s['h']:
                Sh = S0.copy()
                a = self.B.atom(T('exc', self.uid(), self.tu.types[h['t']] if 't' in h else '...'))
                Sh.g = self.B.AND(S0.g, a)
                # anything the block may have written is unknown
                for fq in self.eff.mod_node(s['b'], self.tu):
                    self.bump(Sh, fq)
                if res is not None:
                    res.g = self.B.AND(res.g, self.B.NOT(a))
                self.stmt(h['b'], Sh)
                if Sh.g:
                    res = self.merge(res, Sh)
            if res is None or res.g == 0:
                S.g = 0
            else:
                S.set(res)
            return
        if k == '?s':
            for x in s.get('s', []):
                self.stmt(x, S)
            self.unknown.append((s.get('cls'), s.get('l')))
            return
        raise AnalysisError('statement kind %s' % k)

    def declvar(self, v, S):
        tu = self.tu
        D = tu.decls[v['d']]
        if v.get('i') is None:
            S.env[D.u] = T('ctor', tu.types[v['t']] if v.get('t', -1) >= 0 else '', ())
            return
        t = D.t
        if v.get('ref') or t.endswith('&'):
            lv = self.lval(v['i'], S)
            if lv.k in ('lv', 'fld', 'idx', 'ite'):
                S.env[D.u] = T('alias', lv)
            else:
                S.env[D.u] = lv
            return
        S.env[D.u] = x = self.ev(v['i'], S)
        self.linit.setdefault(D.u, x)

    def switch(self, s, S):
        c = self.ev(s['c'], S)
        g0 = S.g
        S0 = S.copy()
        items = s['b']['s'] if s['b'] and s['b']['k'] == 'blk' else [s['b']]
        # flatten labels
        flat = []
        for it in items:
            labs = []
            x = it
            while x and x['k'] in ('case', 'default'):
                labs.append(x)
                x = x['b']
            flat.append((labs, x))
        vals = []
        for labs, x in flat:
            for l in labs:
                if l['k'] == 'case':
                    vals.append(self.ev(l['c'], S0))
        anyc = 0
        for v in vals:
            anyc = self.B.OR(anyc, self.cmp('==', c, v))
        hasdef = any(l['k'] == 'default' for labs, x in flat for l in labs)
        self.brk.append({'b': [], 'c': [], 'sw': True})
        cur = S0.copy()
        cur.g = 0
        covered = 0
        for labs, x in flat:
            for l in labs:
                if l['k'] == 'case':
                    cond = self.cmp('==', c, self.ev(l['c'], S0))
                else:
                    cond = self.B.NOT(anyc)
                ent = S0.copy()
                ent.g = self.B.AND(g0, cond)
                covered = self.B.OR(covered, cond)
                if cur.g == 0:
                    cur = ent
                else:
                    cur = self.merge(cur, ent)
            if x is not None:
                self.stmt(x, cur)
        b = self.brk.pop()
        res = cur if cur.g else None
        for x in b['b']:
            if x.g:
                res = self.merge(res, x)
        if not hasdef and not s.get('all'):
            rest = S0.copy()
            rest.g = self.B.AND(g0, self.B.NOT(anyc))
            if rest.g:
                res = self.merge(res, rest)
        if res is None or res.g == 0:
            S.g = 0
        else:
            S.set(res)

    # ---------- loops ----------
    def assigned(self, node, tu, acc=None, depth=0):
        """local variables (usr) possibly assigned in a subtree"""
        r = set()
        for n in walkx(node, tu):
            k = n.get('k')
            tgt = None
            if k == 'asg' or (k == 'un' and n['op'] in ('++', '--', '++post', '--post')):
                tgt = n['a'][0]
                r |= self.lvars(tgt, tu)
            elif k == 'call' and 'd' in n:
                D = tu.decls[n['d']]
                if n.get('o') is not None and not D.cst and not ext_read(D):
                    r |= self.lvars(n['o'], tu)
                for i, a in enumerate(n.get('a', [])):
                    if i < len(D.ps):
                        t = D.ps[i]
                        if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') and D.q not in MOVELIKE and not forwards(D):
                            r |= self.lvars(a, tu)
                        elif t.endswith('*') and not t.startswith('const ') and a['k'] == 'un' and a['op'] == '&':
                            r |= self.lvars(a, tu)
        return r

    def lvars(self, e, tu):
        while True:
            e = strip(e, tu)
            if e['k'] == 'var':
                return {tu.decls[e['d']].u}
            if e['k'] == 'idx':
                e = e['a'][0]
            elif e['k'] == 'mem':
                e = e['b']
                if e is None or e['k'] == 'this':
                    return set()
            elif e['k'] == 'call' and e.get('o') is not None:
                e = e['o']
            elif e['k'] == 'call' and e.get('a') and 'd' in e and tu.decls[e['d']].n in ('begin', 'back_inserter', 'end', 'inserter'):
                e = e['a'][0]
            elif e['k'] == 'cond':
                return self.lvars(e['a'][1], tu) | self.lvars(e['a'][2], tu)
            else:
                return set()

    def havoc_loop(self, L, body, S, fr=None):
        tu = (fr or self.frames[-1]).F.tu
        vs = self.assigned(body, tu)
        # lambdas called in the body which capture by reference
        for n in walk(body):
            if n.get('k') == 'var':
                D = tu.decls[n['d']]
                v = S.env.get(D.u)
                if v is not None and v.k == 'lambda':
                    vs |= self.assigned(self.lams[v][0]['body'], tu)
        L.init = {}
        L.names = {}
        for u in vs:
            v = S.env.get(u)
            if v is None:
                continue
            if v.k == 'alias':
                t = v.a[1]
                while t.k in ('idx', 'elem', 'part'):
                    t = t.a[1]
                if t.k == 'lv':
                    u2 = t.a[1]
                    if u2 in S.env and S.env[u2].k != 'alias':
                        L.init[u2] = S.env[u2]
                        S.env[u2] = T('phi', L.id, str(t.a[2]))
                elif t.k == 'fld':
                    self.bump(S, t.a[2])
                continue
            if v.k in ('fld', 'elem', 'par', 'new', 'this', 'call', 'idx', 'dyncast') and self.pointerlike(u, tu) and not self.rebound(u, body, tu):
                continue
            L.init[u] = v
            S.env[u] = T('phi', L.id, str(u[1]) if isinstance(u, tuple) else str(u))
        for fq in self.eff.mod_node(body, tu):
            self.bump(S, fq)

    def counters(self, L, S, body, inc):
        """variables stepped by the same amount in every iteration: initial value + step * iteration"""
        tu = self.tu
        cands = {u for u in L.init if S.env.get(u) is not None and S.env[u].k == 'phi'}
        if not cands:
            return
        steps = {}

        def step(e):
            i = strip(e, tu)
            if i['k'] == 'un' and i['op'] in ('++', '++post', '--', '--post'):
                x, d = i['a'][0], T('int', 1 if i['op'][0] == '+' else -1)
            elif i['k'] == 'asg' and i.get('op') in ('+=', '-='):
                x = i['a'][0]
                d = strip(i['a'][1], tu)
                if d['k'] == 'int':
                    d = T('int', int(d['v']) * (1 if i['op'] == '+=' else -1))
                elif d['k'] == 'var' and i['op'] == '+=' and tu.decls[d['d']].u not in L.init and S.env.get(tu.decls[d['d']].u) is not None:
                    d = S.env[tu.decls[d['d']].u]
                    if d.k in ('alias', 'elem', 'iv', 'phi'):
                        return
                else:
                    return
            elif i['k'] == 'call' and 'd' in i and tu.decls[i['d']].q == 'std::advance' and len(i['a']) == 2:
                x, d = i['a'][0], self.ev(i['a'][1], S.copy())
                if any(t.k in ('phi', 'elem', 'iv', 'out') for t in subterms(d)):
                    return
            elif i['k'] == 'call' and i.get('op') == '++' and '__normal_iterator' in (tu.decls[i['d']].q if 'd' in i else ''):
                x, d = (i.get('o') or i['a'][0]), T('int', 1)
            else:
                return
            x = strip(x, tu)
            if x['k'] == 'var':
                steps.setdefault(tu.decls[x['d']].u, []).append((tu.decls[x['d']], d))
        conts = any(n.get('k') == 'cont' for n in walk(body))
        if inc is not None and isinstance(inc, dict):
            todo = [inc]
            while todo:
                e = todo.pop()
                if e.get('k') == 'bin' and e.get('op') == ',':
                    todo += e['a']
                else:
                    step(e)
        if not conts and body and body.get('k') == 'blk':
            for x in body['s']:
                if x and x['k'] == 'e':
                    step(x['e'])
        for u, l in steps.items():
            if u not in cands or len(l) != 1:
                continue
            D, d = l[0]
            if not INTEGRAL.match(D.t or '') and '__normal_iterator' not in (D.t or '') and L.init[u].k not in ('begin', 'poly') or d.k == 'int' and d.a[1] <= 0:
                continue
            n = 0                       # the step is the only change
            for part in (body, inc):
                for x in walk(part):
                    if x.get('k') == 'asg' and u in self.lvars(x['a'][0], tu):
                        n += 1
                    elif x.get('k') == 'un' and x['op'] in ('++', '--', '++post', '--post') and u in self.lvars(x['a'][0], tu):
                        n += 1
                    elif x.get('k') in ('call', 'lambda') and u in self.assigned([x] if x['k'] == 'call' else [x.get('body')], tu):
                        n += 1 if x['k'] == 'call' and (x.get('op') in ('++', '+=') or 'd' in x and tu.decls[x['d']].q == 'std::advance') else 2
            if n == 1:
                it = T('iv', L.id)
                S.env[u] = self.add(L.init[u], it if d is T('int', 1) else self.mul(d, it))

    def pointerlike(self, u, tu):
        if isinstance(u, tuple):
            for t in self.P.tus.values():
                if t.name == u[0]:
                    ty = t.decls[u[1]].t
                    return ty.endswith('*') or ty.startswith(('std::shared_ptr', 'const std::shared_ptr', 'std::unique_ptr')) or 'Ptr' in ty or ty.endswith('&')
        return False

    def rebound(self, u, body, tu):
        for n in walk(body):
            if n.get('k') == 'asg' and n['a'][0]['k'] == 'var' and tu.decls[n['a'][0]['d']].u == u:
                return True
            if n.get('k') == 'call' and n.get('op') in ('=', '++', '--', '+=', '-=') and n.get('o') and n['o']['k'] == 'var' and tu.decls[n['o']['d']].u == u:
                return True
            if n.get('k') == 'un' and n['op'] in ('++', '--', '++post', '--post') and n['a'][0]['k'] == 'var' and tu.decls[n['a'][0]['d']].u == u:
                return True
        return False

    def leave_cond(self, gx, L, g0):
        """BDD: some iteration leaves under gx"""
        B = self.B
        p = self.canon_pred(self.constrain(gx, g0), L)
        if L.kind == 'range' or L.kind == 'iv':
            rng = L.range if L.range is not None else T('ivrange', L.lo, L.hi)
            if p == 1:
                return B.NOT(self.cmp('==', T('size', rng), T('int', 0)))
            return B.atom(T('any', rng, p))
        return B.atom(T('anyw', L.id, p))

    def after_loop(self, L, g0, S, out_states, nrets0, thr0=0):
        """S: state at the end of the loop body; lift exits"""
        B = self.B
        fr = self.frames[-1]
        # guards of iterations that leave the function through return
        gret = 0
        newrets = fr.rets[nrets0:]
        for i, (g, v, s) in enumerate(newrets):
            gl = self.lift(g, L, g0)
            fr.rets[nrets0 + i] = (gl, v, s)
        # iterations that do not complete (return/throw)
        done = 0
        for st in out_states:
            if st is not None:
                done = B.OR(done, st.g)
        body_entry = L.bodyg
        gx = B.AND(body_entry, B.NOT(done))
        L.exits = gx
        res = None
        for st in out_states:
            if st is not None and st.g:
                res = self.merge(res, st) if res is not None else st
        ga = g0
        gt = self.throwg
        self.throwg = thr0
        gt = B.AND(gt, g0)
        L.throws = gt
        if gt:
            t = self.leave_cond(gt, L, g0)
            ga = B.AND(ga, B.NOT(t))
            self.throwg = B.OR(self.throwg, B.AND(g0, t))
            self.rawthrow = B.OR(self.rawthrow, gt)
        gr = B.AND(gx, B.NOT(gt))
        if gr:
            ga = B.AND(ga, B.NOT(self.leave_cond(gr, L, g0)))
        L.exits = gr
        # final values
        F = State()
        base = res if res is not None else S
        F.env, F.heap, F.ep = dict(base.env), dict(base.heap), dict(base.ep)
        L.fin = {}
        for u, init in L.init.items():
            fin = L.fin[u] = base.env.get(u)
            F.env[u] = self.loopout(L, u, init, fin)
        # fields written in the loop: unknown afterwards
        for k in list(F.heap):
            if F.heap[k] is not self.pre_heap_get(L, k):
                del F.heap[k]
                F.ep[k[1]] = self.uid()
        for fq in L.mods:
            F.ep[fq] = self.uid()
        F.g = ga
        return F

    def pre_heap_get(self, L, k):
        return L.pre_heap.get(k)

    def lift(self, g, L, g0):
        B = self.B
        p = self.constrain(g, g0)
        uses = False
        for a in B.support(p):
            for t in subterms(a):
                if (t.k == 'elem' and t.a[2] == L.id) or (t.k in ('iv', 'phi') and t.a[1] == L.id):
                    uses = True
        rng = L.range if L.range is not None else T('ivrange', L.lo, L.hi)
        pc = self.canon_pred(p, L)
        if L.kind in ('range', 'iv'):
            if pc == 1:
                return B.AND(g0, B.NOT(self.cmp('==', T('size', rng), T('int', 0))))
            return B.AND(g0, B.atom(T('any', rng, pc)))
        return B.AND(g0, B.atom(T('anyw', L.id, pc)))

    def loopout(self, L, u, init, fin):
        B = self.B
        rng = L.range if L.range is not None else (T('ivrange', L.lo, L.hi) if L.lo is not None else None)
        if fin is not None and rng is not None and init in (TRUE, FALSE):
            phi = T('phi', L.id, str(u[1]) if isinstance(u, tuple) else str(u))
            pb = B.atom(T('truth', phi))
            f = self.tobdd(fin)
            f1 = B.restrict(f, lambda a: True if a is T('truth', phi) else None)
            f0 = B.restrict(f, lambda a: False if a is T('truth', phi) else None)
            # init FALSE: becomes true when f0 ; sticky when f1 == 1
            if init is FALSE and f1 == 1:
                pc = self.canon_pred(self.constrain(f0, L.entry), L)
                if pc > 1:
                    return self.bval(B.atom(T('any', rng, pc)))
            if init is TRUE and f0 == 0:
                pc = self.canon_pred(self.constrain(B.NOT(f1), L.entry), L)
                if pc > 1:
                    return self.bval(B.NOT(B.atom(T('any', rng, pc))))
        return T('lout', L.id, str(u[1]) if isinstance(u, tuple) else str(u), init, fin if fin is not None else T('none'))

    def loop_range(self, s, S):
        tu = self.tu
        if s.get('init'):
            self.stmt(s['init'], S)
        R = self.ev(s['r'], S)
        if S.g == 0:
            return
        if R.k == 'init' and len(R.a[2]) <= 4 and R.a[2]:
            # explicit list: unroll
            D = tu.decls[s['v']['d']]
            self.brk.append({'b': [], 'c': []})
            brs = []
            for x in R.a[2]:
                if S.g == 0:
                    break
                S.env[D.u] = x
                self.stmt(s['b'], S)
                b = self.brk[-1]
                for c in b['c']:
                    M = self.merge(S.copy() if S.g else None, c)
                    S.set(M)
                b['c'] = []
            b = self.brk.pop()
            for x in b['b']:
                M = self.merge(S.copy() if S.g else None, x)
                S.set(M)
            return
        R, proj = self.adapted(R)
        L = Loop(len(self.loops), 'range', R, self.frames[-1].F.file, s['l'])
        L.rt = tu.types[s['rt']] if s.get('rt', -1) >= 0 else ''
        self.loops.append(L)
        el = proj(T('elem', R, L.id))
        D = tu.decls[s['v']['d']]
        self.run_loop(L, S, s['b'], s['b'], {D.u: T('alias', el) if D.t.endswith('&') else el}, None, None)

    def run_loop(self, L, S, body, hav, bind, cond, inc):
        g0 = S.g
        thr0 = self.throwg
        self.throwg = 0
        L.entry = g0
        L.pre_heap = {}
        self.havoc_loop(L, hav, S)
        L.mods = self.eff.mod_node(hav, self.tu)
        L.pre_heap = dict(S.heap)
        pre = S.copy()
        for u, v in bind.items():
            S.env[u] = v
        self.counters(L, S, body, inc)
        L.depth = len(self.loopstack)
        self.loopstack.append(L)
        L.bodyg = g0
        if cond is not None:
            c = self.tobdd(self.ev(cond, S))
            L.cond = c
            L.leave = self.B.AND(S.g, self.B.NOT(c))
            S.g = self.B.AND(S.g, c)
            L.bodyg = S.g
        fr = self.frames[-1]
        n0 = len(fr.rets)
        self.brk.append({'b': [], 'c': []})
        self.stmt(body, S)
        b = self.brk.pop()
        conts = [x for x in b['c'] if x.g]
        res = S.copy() if S.g else None
        for x in conts:
            res = self.merge(res, x)
        if inc is not None and res is not None and res.g:
            v = self.ev(inc, res)
            if L.kind == 'do':
                L.leave = self.B.AND(res.g, self.B.NOT(self.tobdd(v)))
        brs = None
        for x in b['b']:
            if x.g:
                L.breaks = self.B.OR(L.breaks, x.g)
                brs = self.merge(brs, x)
        L.continues = 0
        for x in conts:
            L.continues = self.B.OR(L.continues, x.g)
        self.loopstack.pop()
        if res is None and brs is None:
            # every iteration leaves
            res0 = pre
            res0.g = 0
            F = self.after_loop(L, g0, pre, [None], n0, thr0)
        else:
            F = self.after_loop(L, g0, S, [res, brs], n0, thr0)
        if cond is not None and not L.breaks and L.kind == 'while':
            # exit condition of the loop is not propagated (loop state is summarised)
            pass
        S.set(F)

    def loop_gen(self, s, S):
        tu = self.tu
        k = s['k']
        if k == 'for':
            if s.get('init'):
                self.stmt(s['init'], S)
            if self.try_iv(s, S):
                return
            L = Loop(len(self.loops), 'while', None, self.frames[-1].F.file, s['l'])
            self.loops.append(L)
            self.run_loop(L, S, s['b'], [s['b'], s.get('inc'), s.get('c')], {}, s.get('c'), s.get('inc'))
            return
        if k == 'while':
            if not s.get('cv') and self.try_iv(s, S):
                return
            L = Loop(len(self.loops), 'while', None, self.frames[-1].F.file, s['l'])
            self.loops.append(L)
            self.run_loop(L, S, s['b'], [s['b'], s.get('c')], {}, s.get('c'), None)
            return
        if k == 'do':
            L = Loop(len(self.loops), 'do', None, self.frames[-1].F.file, s['l'])
            self.loops.append(L)
            g0 = S.g
            self.run_loop(L, S, s['b'], [s['b'], s.get('c')], {}, None, s['c'])
            return

    def try_iv(self, s, S):
        iv = self.match_iv(s, S)
        if not iv:
            return False
        u, kind, lo, hi, C, body, rest = iv
        if True:
            if True:
                L = Loop(len(self.loops), 'iv', None, self.frames[-1].F.file, s['l'])
                self.loops.append(L)
                L.lo, L.hi = lo, hi
                if kind == 'it':
                    C, proj = self.adapted(C)
                    L.kind, L.range = 'range', C
                    L.lo = L.hi = None
                    bind = {u: proj(T('elem', C, L.id))}
                else:
                    if lo is T('int', 0) and hi.k == 'size':
                        L.kind, L.range = 'range', hi.a[1]
                    bind = {u: T('iv', L.id)}
                self.run_loop(L, S, body, [body, rest] if rest else body, bind, None, rest)
                if u in S.env:
                    S.env[u] = T('out', self.uid(), 0, 'loopvar')
        return True

    def match_iv(self, s, S):
        inc = s.get('inc')
        parts = []
        todo = [inc] if inc else []
        while todo:
            e = todo.pop(0)
            if e.get('k') == 'bin' and e.get('op') == ',':
                todo = e['a'] + todo
            else:
                parts.append(e)
        if len(parts) <= 1:
            r = self.match_iv1(s, S)
            return r + (None,) if r else None
        for i, p in enumerate(parts):
            rest = parts[:i] + parts[i + 1:]
            r = self.match_iv1(dict(s, inc=p), S)
            if r and not any(r[0] in self.assigned(x, self.tu) or r[0] in self.lvars(x, self.tu) for x in rest):
                x = rest[0]
                for y in rest[1:]:
                    x = {'k': 'bin', 'op': ',', 'a': [x, y], 't': y.get('t'), 'l': y.get('l')}
                return r + (x,)
        return None

    def match_iv1(self, s, S):
        tu = self.tu
        c, inc, body = s.get('c'), s.get('inc'), s['b']
        if not c:
            return None
        op = c.get('op')
        cargs = None
        if c['k'] == 'bin' and op in ('<', '!=', '<=', '>'):
            cargs = c['a']
        elif c['k'] == 'call' and op in ('!=', '<'):
            cargs = ([c['o']] if c.get('o') else []) + c['a']
        if not cargs or len(cargs) != 2:
            return None
        if not inc:
            # counter advanced by the last statement of the body
            if body['k'] != 'blk' or not body['s'] or body['s'][-1]['k'] != 'e':
                return None
            if any(n.get('k') == 'cont' for n in walk(body)):
                return None
            inc = body['s'][-1]['e']
            body = dict(body, s=body['s'][:-1])
        cand = None
        i0 = strip(inc, tu)
        x0 = i0['a'][0] if i0.get('a') else i0.get('o')
        if i0['k'] == 'call' and i0.get('o'):
            x0 = i0['o']
        if i0['k'] not in ('un', 'call', 'asg') or x0 is None:
            return None
        x0 = strip(x0, tu)
        if x0['k'] != 'var':
            return None
        D = tu.decls[x0['d']]
        inc = i0

        def isv(e):
            e = strip(e, tu)
            return e['k'] == 'var' and tu.decls[e['d']].u == D.u
        okinc = False
        if inc['k'] == 'un' and inc['op'] in ('++', '++post') and isv(inc['a'][0]):
            okinc = True
        if inc['k'] == 'call' and inc.get('op') == '++' and ((inc.get('o') and isv(inc['o'])) or (inc['a'] and isv(inc['a'][0]))):
            okinc = True
        if inc['k'] == 'asg' and inc['op'] == '+=' and isv(inc['a'][0]) and inc['a'][1]['k'] == 'int' and int(inc['a'][1]['v']) == 1:
            okinc = True
        if not okinc:
            return None
        lo0 = S.env.get(D.u)
        if lo0 is not None and lo0.k == 'begin':
            if self.rebound(D.u, body, tu) or any(n.get('k') in ('un', 'call') and (n.get('op') or '')[:2] in ('++', '--', '+=', '-=') and
                                                  any(x is not None and isv(x) for x in ([n.get('o')] if n.get('o') else n.get('a', [])[:1])) for n in walk(body)):
                return None
        elif D.u in self.assigned(body, tu):
            return None
        args = cargs
        if isv(args[0]):
            hi = args[1]
        elif isv(args[1]) and op in ('!=', '>'):
            hi = args[0]
        else:
            return None
        lo = S.env.get(D.u)
        if lo is None:
            return None
        hv = self.ev(hi, S)
        # upper bound must not change in the loop (fields it mentions)
        if lo.k == 'begin' and hv.k == 'end' and lo.a[1] is hv.a[1]:
            return (D.u, 'it', None, None, lo.a[1], body)
        if lo.k in ('begin', 'upd', 'call', 'find') or hv.k == 'end':
            return None
        if op == '<=':
            hv = self.add(hv, T('int', 1))
        return (D.u, 'int', lo, hv, None, body)

    # ---------- driver ----------
    def run(self, F, this=None):
        """analyse root function F"""
        self.root = F
        self.funcs_seen.add(F.d.u)
        S = State()
        fr = Frame(F, this or THIS)
        self.frames.append(fr)
        self.stack.append(F.d.q)
        for i, p in enumerate(F.params):
            S.env[p.u] = self.linit[p.u] = T('par', i, p.n or 'arg%d' % i)
            if p.t and not p.t.startswith('const ') and (p.t.endswith('*') or p.t.endswith('&') and not p.t.endswith('&&')):
                self.outpars[p.u] = (S.env[p.u], p.t.endswith('&'))
        if F.d.k == 'ctor':
            for ini in F.inits:
                if 'd' in ini:
                    D = F.tu.decls[ini['d']]
                    self.curline = ini.get('l') or F.line
                    v = self.ev(ini['e'], S) if ini.get('e') else T('none')
                    self.store(S, T('fld', fr.this, D.q, 0), v)
                elif 'base' in ini:
                    v = self.ev(ini['e'], S)
                    self.event(S, 'base', F.tu.types[ini['base']], list(v.a[2]) if v.k == 'ctor' else [v])
        if F.body:
            self.stmt(F.body, S)
        if S.g:
            self.curline = F.end
            self.event(S, 'ret', 'end', [], val=T('none'))
        self.final = S
        self.rets = fr.rets
        self.exit = None
        for g, v, st in fr.rets + ([(S.g, None, S)] if S.g else []):
            st = st.copy()
            st.g = g
            self.exit = st if self.exit is None else self.merge(self.exit, st)
        self.frames.pop()
        self.stack.pop()
        return self

    # ---------- queries ----------
    def calls(self, pred, inlined=None):
        """events of calls whose qualified name satisfies pred (str suffix, set or callable)"""
        if isinstance(pred, str):
            s = pred
            pred = lambda q: q == s or q.endswith('::' + s)
        elif isinstance(pred, (set, frozenset, list, tuple)):
            ss = set(pred)
            pred = lambda q: q in ss or any(q.endswith('::' + x) for x in ss)
        return [e for e in self.events if e.kind == 'call' and pred(e.q) and (inlined is None or e.inlined == inlined)]

    def literals(self, g):
        """atoms with a fixed value under g: list of (atom, bool)"""
        B = self.B
        out = []
        if g < 2:
            return out
        for a in B.support(g):
            at = B.atom(a)
            if B.implies(g, at):
                out.append((a, True))
            elif B.implies(g, B.NOT(at)):
                out.append((a, False))
        return out

    def fmt(self, g, limit=3, skip=()):
        B = self.B
        if g < 2:
            return ['false', 'true'][g]
        lits = self.literals(g)
        d = dict(lits)
        rest = B.restrict(g, lambda a: d.get(a))
        s = ' & '.join(('' if v else '!') + self.afmt(a) for a, v in lits if (a, v) not in skip)
        if rest != 1:
            s += (' & ' if s else '') + '[' + B.show(rest, self.afmt, limit) + ']'
        return s or '.'

    def afmt(self, a):
        if isinstance(a, T):
            if a.k == 'truth':
                return repr(a.a[1])
            if a.k == 'any':
                return 'any(%s: %s)' % (a.a[1], B_show(self, a.a[2]))
        return repr(a)


def B_show(A, p):
    return A.fmt(p, 2)


def samepath(a, b):
    """same access path, whatever version of it"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T) or a.k != b.k:
        return False
    if a.k == 'fld':
        return a.a[2] == b.a[2] and samepath(a.a[1], b.a[1])
    if a.k in ('call', 'elem', 'idx') and len(a.a) == len(b.a):
        return all(x == y or samepath(x, y) for x, y in zip(a.a[1:3], b.a[1:3]))
    return False


_stamps = {}
_stamp_rev = {}


def hash_stamp(s):
    if s not in _stamps:
        _stamps[s] = 's%d' % len(_stamps)
        _stamp_rev[_stamps[s]] = s
    return _stamps[s]


def default_policy(A, F, D):
    """inline helpers of the root's own class and file-local helpers"""
    root = A.root
    if F.d.c and root.d.c and F.d.c == root.d.c:
        return True
    if F.file == root.file:
        return True
    return False
