"""Normal forms of scalar and small-vector expressions: value-graph terms become quotients of polynomials over symbols, so that two formulas are
the same exactly if they are equal as rational functions, however they are written (factored, expanded, through helpers, dot or cross products)."""
import re
from fractions import Fraction


class Unsupported(Exception):
    pass


class Poly:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __mul__(self, o):
        r = {}
        for k, v in self.m.items():
            for l, w in o.m.items():
                if not k:
                    key = l
                elif not l:
                    key = k
                else:
                    d = dict(k)
                    for s, e in l:
                        d[s] = d.get(s, 0) + e
                    key = tuple(sorted(d.items()))
                r[key] = r.get(key, 0) + v * w
        return Poly(r)

    def __eq__(self, o):
        return self.m == o.m

    def __str__(self):
        l = []
        for k, v in sorted(self.m.items(), key=str):
            l.append('*'.join(([str(v)] if v != 1 or not k else []) + [str(s) + ('^%d' % e if e > 1 else '') for s, e in k]))
        return ' + '.join(l) or '0'


ONE = Poly({(): 1})


class Rat:
    """quotient of polynomials"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Rat(Poly({(): int(c) if c.denominator == 1 else c}))

    @staticmethod
    def sym(s):
        return Rat(Poly({((s, 1),): 1}))

    def lift(o):
        return o if isinstance(o, Rat) else Rat.const(o)

    def __add__(self, o):
        o = Rat.lift(o)
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return self * Rat.const(-1)

    def __sub__(self, o):
        return self + -Rat.lift(o)

    def __mul__(self, o):
        o = Rat.lift(o)
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        o = Rat.lift(o)
        if not o.n.m:
            raise Unsupported('division by zero')
        return Rat(self.n * o.d, self.d * o.n)

    def __pow__(self, k):
        r = Rat.const(1)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else Rat.const(1) / r

    def __rsub__(self, o):
        return Rat.lift(o) - self

    __radd__ = __add__
    __rmul__ = __mul__

    def __rtruediv__(self, o):
        return Rat.lift(o) / self

    def __eq__(self, o):
        o = Rat.lift(o)
        if self.d == o.d:
            return self.n == o.n
        return self.n * o.d == o.n * self.d

    def __hash__(self):
        return 0

    def __str__(self):
        return str(self.n) if self.d == ONE else '(%s) / (%s)' % (self.n, self.d)

    def number(self):
        """constant value, if it is one"""
        if all(not k for k in self.n.m) and all(not k for k in self.d.m):
            return Fraction(self.n.m.get((), 0)) / self.d.m[()]
        return None


def dot(a, b):
    r = Rat.const(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def cross(a, b):
    if len(a) != 3 or len(b) != 3:
        raise Unsupported('cross product of vectors with %d and %d components' % (len(a), len(b)))
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def det2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def vec(name, n):
    return [Rat.sym('%s%d' % (name, i)) for i in range(n)]


FUN = {'std::sqrt': 'sqrt', 'sqrt': 'sqrt', 'std::abs': 'abs', 'std::fabs': 'abs', 'abs': 'abs', 'fabs': 'abs', 'std::exp': 'exp', 'exp': 'exp',
       'std::log': 'log', 'log': 'log', 'std::log1p': 'log1p', 'std::erf': 'erf'}


_funs = []


def fun(name, x):
    """uninterpreted function of an argument: equal arguments (as rational functions) give the same symbol"""
    for i, (n, y) in enumerate(_funs):
        if n == name and (same(x, y) or name == 'abs' and x == -y or name == 'norm' and len(x) == len(y) and same([-c for c in x], y)):
            return Rat.sym('%s#%d' % (name, i))
    _funs.append((name, x))
    return Rat.sym('%s#%d' % (name, len(_funs) - 1))


class Eval:
    """env: function from a leaf term to its value (Rat or list of Rat), or None"""

    def __init__(self, env):
        self.env = env
        self.local = {}

    def chain(self, t):
        """local vector written component by component"""
        ups = []
        while t.k == 'upd':
            ups.append(t)
            t = t.a[1]
        n = None
        if t.k in ('ctor', 'init'):
            m = re.search(r'Vector(\d)', str(t.a[1])) or re.search(r'(\d), *1[,>]', str(t.a[1]))
            n = int(m[1]) if m else None
        base = self(t) if t.k not in ('ctor', 'init') or t.a[2] else [None] * (n or 0)
        if not isinstance(base, list):
            raise Unsupported(str(t)[:160])
        cur = list(base)
        for u in reversed(ups):
            if u.a[2] != 'store':
                raise Unsupported(str(u.a[2]))
            lv, val = u.a[3]
            if lv.k != 'idx' or lv.a[2].k != 'int' or lv.a[1].k != 'lv' or not 0 <= lv.a[2].a[1] < len(cur):
                raise Unsupported(str(lv)[:160])
            self.local[lv.a[1]] = cur
            cur[lv.a[2].a[1]] = self(val)
            cur = list(cur)
            self.local[lv.a[1]] = cur
        return cur

    def __call__(self, t):
        v = self.env(t)
        if v is not None:
            return v
        k = t.k
        if k == 'upd':
            return self.chain(t)
        if k == 'idx' and t.a[1] in self.local and t.a[2].k == 'int':
            r = self.local[t.a[1]][t.a[2].a[1]]
            if r is None:
                raise Unsupported('component not set')
            return r
        if k in ('int', 'flt'):
            return Rat.const(Fraction(str(t.a[1])))
        if k == 'poly':
            acc = None
            for fac, c in t.a[1]:
                r = Rat.const(c if isinstance(c, int) else Fraction(str(c)))
                for x in fac:
                    r = self.mul(r, self(x))
                acc = r if acc is None else self.addv(acc, r)
            return acc if acc is not None else Rat.const(0)
        if k == 'op' and len(t.a) == 4:
            a, b = self(t.a[2]), self(t.a[3])
            o = t.a[1]
            if o == '/':
                return [x / b for x in a] if isinstance(a, list) else a / b
            if o == '*':
                return self.mul(a, b)
            if o == '+':
                return self.addv(a, b)
            if o == '-':
                return self.addv(a, self.mul(Rat.const(-1), b))
        if k == 'op' and len(t.a) == 3 and t.a[1] == '-':
            return self.mul(Rat.const(-1), self(t.a[2]))
        if k == 'call':
            return self.call(t.a[1], t.a[2])
        if k in ('ctor', 'init') and len(t.a[2]) > 1:
            return [self(x) for x in t.a[2]]
        if k in ('ctor', 'conv') and len(t.a) > 2 and len(t.a[2]) == 1:
            return self(t.a[2][0])
        if k == 'cast' and hasattr(t.a[-1], 'k'):
            return self(t.a[-1])
        if k == 'idx' and t.a[2].k in ('int', 'tup'):
            b = self(t.a[1])
            i = t.a[2].a[1] if t.a[2].k == 'int' else None
            if i is None and t.a[2].a[1] == 'operator()' and len(t.a[2].a[2]) == 1:
                i = t.a[2].a[2][0].a[1]
            if isinstance(b, list) and isinstance(i, int) and 0 <= i < len(b):
                return b[i]
        raise Unsupported(str(t)[:160])

    def mul(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            raise Unsupported('product of vectors')
        if isinstance(a, list):
            a, b = b, a
        if isinstance(b, list):
            return [a * x for x in b]
        return a * b

    def addv(self, a, b):
        if isinstance(a, list) != isinstance(b, list) or isinstance(a, list) and len(a) != len(b):
            raise Unsupported('sum of a vector and a number')
        return add(a, b) if isinstance(a, list) else a + b

    def call(self, q, args):
        n = q.rsplit('::', 1)[-1]
        m = re.match(r'pow_int\[(\d+)\]$', n)
        if m and len(args) == 1:
            return self(args[0]) ** int(m[1])
        if n == 'operator()' and len(args) == 1:
            raise Unsupported(q)
        a = [self(x) for x in args]
        if n == 'dot':
            return dot(*a)
        if n in ('cross', 'cross3'):
            return cross(*a)
        if n == 'operator-' and len(a) == 1:
            return self.mul(Rat.const(-1), a[0])
        if n == 'squaredNorm':
            return dot(a[0], a[0])
        if n == 'norm':
            return fun('norm', a[0])
        if n == 'operator*' and len(a) == 2:
            return self.mul(*a)
        if n == 'operator/' and len(a) == 2:
            return self.mul(1 / a[1], a[0])
        if n == 'operator+' and len(a) == 2:
            return self.addv(*a)
        if n == 'operator-' and len(a) == 2:
            return self.addv(a[0], self.mul(Rat.const(-1), a[1]))
        if n == 'fma' and len(a) == 3:
            return a[0] * a[1] + a[2]
        if n in ('pow', 'pow_int') and len(a) == 2 and a[1].number() is not None and a[1].number().denominator == 1 and abs(a[1].number()) < 40:
            return a[0] ** int(a[1].number())
        if n in ('max', 'min') and len(a) == 2:
            return fun(n, sorted(a, key=str))
        if q in FUN and FUN[q] == 'sqrt' and args[0].k == 'call' and args[0].a[1].endswith('::squaredNorm'):
            return fun('norm', self(args[0].a[2][0]))
        if q in FUN and len(a) == 1:
            return fun(FUN[q], a[0])
        raise Unsupported(q)


def same(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))
    return a == b
