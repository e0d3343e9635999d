"""Small reduced ordered decision diagrams over condition atoms (arbitrary hashable terms)."""


class BDD:
    def __init__(self):
        self.atoms = []
        self.idx = {}
        self.nodes = [(10 ** 9, 0, 0), (10 ** 9, 1, 1)]
        self.uniq = {}
        self.memo = {}

    F, T = 0, 1

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def atom(self, a):
        i = self.idx.get(a)
        if i is None:
            i = len(self.atoms)
            self.idx[a] = i
            self.atoms.append(a)
        return self.mk(i, 0, 1)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def IMP(self, a, b):
        return self.ite(a, b, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.nodes[f], self.nodes[g], self.nodes[h]
        v = min(nf[0], ng[0], nh[0])

        def br(x, n, s):
            return n[1 + s] if n[0] == v else x
        lo = self.ite(br(f, nf, 0), br(g, ng, 0), br(h, nh, 0))
        hi = self.ite(br(f, nf, 1), br(g, ng, 1), br(h, nh, 1))
        r = self.mk(v, lo, hi)
        self.memo[k] = r
        return r

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return [self.atoms[v] for v in sorted(out)]

    def restrict(self, f, assign):
        """assign: callable(atom) -> True/False/None"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            val = assign(self.atoms[v])
            if val is None:
                r = self.ite(self.mk(v, 0, 1), go(hi), go(lo))
            else:
                r = go(hi) if val else go(lo)
            memo[x] = r
            return r
        return go(f)

    def mapatoms(self, f, fn):
        """rebuild f replacing each atom a by the diagram fn(a)"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            r = self.ite(fn(self.atoms[v]), go(hi), go(lo))
            memo[x] = r
            return r
        return go(f)

    def exists(self, f, pred):
        """existentially quantify all atoms satisfying pred"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            l, h = go(lo), go(hi)
            if pred(self.atoms[v]):
                r = self.OR(l, h)
            else:
                r = self.ite(self.mk(v, 0, 1), h, l)
            memo[x] = r
            return r
        return go(f)

    def forall(self, f, pred):
        return self.NOT(self.exists(self.NOT(f), pred))

    def show(self, f, fmt=str, limit=6):
        """some cubes of f"""
        if f == 0:
            return 'false'
        if f == 1:
            return 'true'
        cubes = []

        def go(x, acc):
            if len(cubes) > limit:
                return
            if x == 0:
                return
            if x == 1:
                cubes.append(list(acc))
                return
            v, lo, hi = self.nodes[x]
            go(hi, acc + [fmt(self.atoms[v])])
            go(lo, acc + ['!' + fmt(self.atoms[v])])
        go(f, [])
        s = ' | '.join('(' + ' & '.join(c) + ')' for c in cubes[:limit])
        return s + (' | ...' if len(cubes) > limit else '')
