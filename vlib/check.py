"""Obligation bookkeeping, reporting, evidence."""
import os, re, sys, json, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
import facts, effects, gssa, q
from facts import AnalysisError
from q import Fn, Sel, Norm, match, short, glob
from gssa import T, subterms


# small algorithms looked through at every call
ALWAYS = {'precice::utils::find_first_range'}


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        if tier == 'thorough':      # parse everything anew, independent of the cache
            import atexit, shutil, tempfile
            os.makedirs(facts.CACHE, exist_ok=True)
            facts.CACHE = tempfile.mkdtemp(prefix='thorough-', dir=os.path.dirname(facts.CACHE))
            atexit.register(shutil.rmtree, facts.CACHE, True)
        self.P = facts.load(None)
        self.E = effects.Effects(self.P)
        self.obs = []
        self.seen = set()
        self.cache = {}
        self.notes = []
        self.assumptions = set()
        with open(os.path.join(ROOT, 'spec', 'baseline_functions.txt')) as f:
            self.base = set(f.read().split('\n'))

    # ---- program access ----
    def policy(self, A, F, D):
        return gssa.default_policy(A, F, D) or D.q not in self.base or D.q in ALWAYS

    def funcs(self, name, must=True):
        """functions by (suffix of the) qualified name"""
        P = self.P
        r = P.byq.get(name) or P.byq.get('precice::' + name)
        if not r:
            r = [f for n, fs in P.byq.items() if n.endswith('::' + name) for f in fs]
        r = [f for f in r if f.body is not None and not f.dep]
        if not r:
            # members of class template instantiations
            r = [f for n, fs in P.byq.items() if '<' in n and ('::' + short(n, 9)).endswith('::' + name) for f in fs if f.body is not None and not f.dep]
        if not r and must:
            raise AnalysisError('function %s not found in the source' % name)
        return r

    def fn(self, name, nparams=None, ptype=None, policy=None, **kw):
        key = (name, nparams, ptype, policy, str(kw))
        if key in self.cache:
            return self.cache[key]
        fs = self.funcs(name)
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if ptype is not None:
            fs = [f for f in fs if match(ptype, ', '.join(p.t for p in f.params))]
        if fs and len({(f.file, f.line) for f in fs}) == 1:
            fs = sorted(fs, key=lambda f: f.d.u)[:1]     # instantiations of one template
        if len({f.d.u for f in fs}) != 1:
            raise AnalysisError('%s: %d candidates (%s)' % (name, len(fs), [', '.join(p.t for p in f.params) for f in fs][:6]))
        r = self.analyse(fs[0], policy=policy, **kw)
        self.cache[key] = r
        return r

    def analyse(self, F, policy=None, **kw):
        pol = policy or self.policy
        if policy is not None:
            pol = lambda A, F2, D: policy(A, F2, D) or D.q not in self.base
        return Fn(self, F, policy=pol, **kw)

    # ---- obligations ----
    def ob(self, rule, inst, ok, loc='', detail=''):
        self.obs.append({'rule': rule, 'instance': inst, 'ok': bool(ok), 'loc': loc, 'detail': detail})
        return ok

    def need(self, rule, n, minimum=1):
        """a rule that found fewer instances than it must has lost its anchor"""
        if n < minimum:
            raise AnalysisError('%s: only %d instances found, at least %d expected' % (rule, n, minimum))

    # relation between the condition of an effect and a specification
    def _lhs(self, f, s, lift):
        return (s.glift if lift else s.g) if isinstance(s, Sel) else s

    def _cond(self, f, ex, g, entry):
        """conditions prefer atoms that occur in the gate in question"""
        if not isinstance(ex, str):
            return ex
        B = f.A.B
        sup = set(B.support(g)) if g > 1 else set()
        old = f.atoms

        def atoms(pat):
            at = old(pat)
            pref = [a for a in at if a in sup]
            return pref or at
        f.atoms = atoms
        try:
            return f.cond(ex)
        finally:
            del f.atoms

    def entry(self, s):
        """gate with which the innermost loop of the (single-loop) selection was entered"""
        r = 0
        for e in s:
            if not e.loops:
                return 1
        return 1

    def rel(self, rule, s, ex, mode, desc='', lift=False, errfree=True, given=None):
        f = s.f
        B = f.A.B
        g = self._lhs(f, s, lift)
        care = f.N if errfree else f.axioms
        if given is not None:
            care = B.AND(care, self._cond(f, given, g, 1))
        if s and not lift and s[0].loops:
            # membership of the ranges looped over is given
            care = B.AND(care, f.member(list(s)))
        c = self._cond(f, ex, g, 1)
        a, b = B.AND(g, care), B.AND(c, care)
        if a != b:
            a, b = self.coll(f, a, b)
        if mode == 'iff':
            ok = a == b
        elif mode == 'only':
            ok = B.implies(a, b)
        else:
            ok = B.implies(b, a)
        det = ''
        if not ok:
            if not len(s):
                det = 'no such effect in %s' % f.name
            else:
                x = B.AND(a, B.NOT(b))
                y = B.AND(b, B.NOT(a))
                if x and mode != 'when':
                    det += 'happens also when: %s. ' % f.n.gate(x, 2)[:300]
                if y and mode != 'only':
                    det += 'does not happen when: %s.' % f.n.gate(y, 2)[:300]
        word = {'iff': 'exactly when', 'only': 'only when', 'when': 'whenever'}[mode]
        return self.ob(rule, '%s: %s %s %s' % (f.name, desc or s.desc, word, ex if isinstance(ex, str) else '<computed condition>'), ok, s.loc, det)

    @staticmethod
    def coll(f, a, b):
        k = f.collapse(f.axioms)
        x, y = f.A.B.AND(f.collapse(a), k), f.A.B.AND(f.collapse(b), k)
        return (x, y) if x == y or len(set(f.n.atom(t) for t in f.A.B.support(a))) < len(f.A.B.support(a)) else (a, b)

    def iff(self, rule, s, ex='T', desc='', **kw):
        return self.rel(rule, s, ex, 'iff', desc, **kw)

    def only(self, rule, s, ex, desc='', **kw):
        return self.rel(rule, s, ex, 'only', desc, **kw)

    def when(self, rule, s, ex='T', desc='', **kw):
        return self.rel(rule, s, ex, 'when', desc, **kw)

    def throws(self, rule, f, ex, mode='iff', before=True):
        """error raised in f exactly when ex; with before=True also ahead of every effect"""
        B = f.A.B
        th = f.throws()
        g = f.A.throwg
        c = self._cond(f, ex, g, 1)
        a, b = B.AND(g, f.axioms), B.AND(c, f.axioms)
        ok = a == b if mode == 'iff' else B.implies(b, a)
        if not ok:
            a, b = self.coll(f, a, b)
            ok = a == b if mode == 'iff' else B.implies(b, a)
        det = ''
        if not ok:
            x, y = B.AND(a, B.NOT(b)), B.AND(b, B.NOT(a))
            if x and mode == 'iff':
                det += 'error raised also when: %s. ' % f.n.gate(x, 2)[:300]
            if y:
                det += 'no error when: %s.' % f.n.gate(y, 2)[:300]
        return self.ob(rule, '%s: raises an error %s %s' % (f.name, 'exactly when' if mode == 'iff' else 'whenever', ex), ok, th.loc, det)

    def none(self, rule, s, desc=''):
        ok = all(s.f.A.B.AND(e.g, s.f.N) == 0 for e in s)
        return self.ob(rule, '%s: no %s' % (s.f.name, desc or s.desc), ok, s.loc, 'found ' + '; '.join(s.f.text(e)[:160] for e in list(s)[:3]) if not ok else '')

    def before(self, rule, a, b, desc=''):
        """on every error-free path reaching an effect of b some effect of a came first"""
        f = a.f
        B = f.A.B
        if not len(b):
            return self.ob(rule, '%s: %s before %s' % (f.name, a.desc, desc or b.desc), False, a.loc, 'no %s in %s' % (b.desc, f.name))
        for e in b:
            r = 0
            for x in a:
                if x.seq >= e.seq:
                    continue
                common = 0
                while common < len(x.loops) and common < len(e.loops) and x.loops[common] is e.loops[common]:
                    common += 1
                r = B.OR(r, self.full(f, x, common))
            if not B.implies(B.AND(B.AND(e.g, f.N), 1), r):
                miss = B.AND(B.AND(e.g, f.N), B.NOT(r))
                return self.ob(rule, '%s: %s before %s' % (f.name, a.desc, desc or b.desc), False, e.loc,
                               '%s is reached without it when: %s' % (f.text(e)[:200], f.n.gate(f.norm_gate(miss), 2)[:300]))
        return self.ob(rule, '%s: %s before %s' % (f.name, a.desc, desc or b.desc), True, b.loc)

    def full(self, f, x, common):
        """condition under which x has happened once its loops (beyond the common ones) are over;
        a loop counts as done when entered (it may have had no element)"""
        if len(x.loops) > common:
            L = x.loops[common]
            return L.entry if L.entry is not None else x.g
        return x.g

    def after(self, rule, a, b, desc=''):
        """every effect of a is followed by one of b on error-free paths"""
        f = a.f
        B = f.A.B
        if not len(a):
            return self.ob(rule, '%s: %s followed by %s' % (f.name, a.desc, b.desc), False, a.loc, 'no %s' % a.desc)
        for e in a:
            r = 0
            for x in b:
                if x.seq > e.seq:
                    common = 0
                    while common < len(x.loops) and common < len(e.loops) and x.loops[common] is e.loops[common]:
                        common += 1
                    r = B.OR(r, self.full(f, x, common))
            if not B.implies(B.AND(e.g, f.N), r):
                miss = B.AND(B.AND(e.g, f.N), B.NOT(r))
                return self.ob(rule, '%s: %s followed by %s' % (f.name, a.desc, desc or b.desc), False, e.loc,
                               'not followed when: %s' % f.n.gate(f.norm_gate(miss), 2)[:300])
        return self.ob(rule, '%s: %s followed by %s' % (f.name, a.desc, desc or b.desc), True, a.loc)

    def foreach(self, rule, s, rng, ex='T', outer=None, desc=''):
        """for every element of the range (glob on its text) the effect happens exactly when ex;
        the loop visits all elements (no break, no early return)"""
        f = s.f
        B = f.A.B
        ev = [e for e in s if e.loops and match(rng, f.rng(e.loops[-1]))]
        d = '%s: for every element of %s %s%s' % (f.name, rng, desc or s.desc, '' if ex == 'T' else ' exactly when ' + ex)
        if not ev:
            return self.ob(rule, d, False, s.loc, 'no such effect in a loop over %s' % rng + (' (found over %s)' % [f.rng(e.loops[-1])[:80] if e.loops else '-' for e in s] if len(s) else ''))
        loops = {e.loops[-1] for e in ev}
        for L in loops:
            if B.AND(L.breaks, f.N) or B.AND(L.exits, f.N):
                return self.ob(rule, d, False, '%s:%s' % (L.file, L.line), 'the loop can be left early')
        ok, det = True, ''
        for L in loops:
            g = 0
            for e in ev:
                if e.loops[-1] is L:
                    g = B.OR(g, e.g)
            care = B.AND(B.AND(f.N, L.entry), f.member(ev))
            c = self._cond(f, ex, g, 1)
            a, b = B.AND(g, care), B.AND(c, care)
            if a != b:
                a, b = self.coll(f, a, b)
            if a != b:
                ok = False
                x, y = B.AND(a, B.NOT(b)), B.AND(b, B.NOT(a))
                if x:
                    det += 'happens also when: %s. ' % f.n.gate(f.norm_gate(x), 2)[:300]
                if y:
                    det += 'does not happen when: %s.' % f.n.gate(f.norm_gate(y), 2)[:300]
        if outer is not None:
            g = 0
            for L in loops:
                g = B.OR(g, L.entry)
            c = self._cond(f, outer, g, 1)
            if B.AND(g, f.N) != B.AND(c, f.N):
                ok = False
                det += 'loop entered when %s, expected %s' % (f.n.gate(f.norm_gate(g), 2)[:200], outer)
        return self.ob(rule, d, ok, s.loc, det)

    def value(self, rule, s, pat, idx=None, desc='', given=None):
        """value stored/returned (or argument idx) by every selected effect has the given form (glob);
        conditional values are compared case by case when given names a condition"""
        f = s.f
        d = '%s: %s %s %s' % (f.name, desc or s.desc, 'value' if idx is None else 'argument %d' % idx, pat if given is None else '%s when %s' % (pat, given))
        if not len(s):
            return self.ob(rule, d, False, s.loc, 'no such effect')
        for e in s:
            t = e.val if idx is None else (e.args[idx] if idx < len(e.args) else T('none'))
            g = f.A.B.AND(e.g, self._cond(f, given, e.g, 1)) if given is not None else e.g
            if f.A.B.AND(g, f.N) == 0:
                continue
            t = f.under(t, g)
            if not match(pat, f.n(t)):
                return self.ob(rule, d, False, e.loc, 'is %s' % f.n(t)[:200])
        return self.ob(rule, d, True, s.loc)

    def returns(self, rule, f, ex):
        """function returns true exactly when ex (boolean functions)"""
        B = f.A.B
        t, u = 0, 0
        for e in f.rets():
            if e.val is None or e.val.k == 'none':
                continue
            t = B.OR(t, f.liftg(e, B.AND(e.g, f.A.tobdd(e.val))))
            u = B.OR(u, f.liftg(e, e.g))
        c = self._cond(f, ex, t, 1)
        a, b = B.AND(t, f.N), B.AND(c, B.AND(f.N, u))
        if a != b:
            a, b = self.coll(f, a, b)
        det = ''
        if a != b:
            x, y = B.AND(a, B.NOT(b)), B.AND(b, B.NOT(a))
            if x:
                det += 'true also when: %s. ' % f.n.gate(x, 2)[:300]
            if y:
                det += 'false when: %s.' % f.n.gate(y, 2)[:300]
        return self.ob(rule, '%s: returns true exactly when %s' % (f.name, ex), a == b, f.rets().loc, det)

    def retval(self, rule, f, pat, given=None):
        s = Sel(f, [e for e in f.rets() if e.val is not None], 'result')
        return self.value(rule, s, pat, desc='result', given=given)

    # ---- specification blocks ----
    def spec(self, rule, f, text, within=None, labels=None):
        """one obligation per line; see q.split_line and DESIGN.md"""
        if isinstance(f, str):
            f = self.fn(f)
        B = f.A.B
        labels = {} if labels is None else labels
        for l in text.strip().split('\n'):
            l = l.strip()
            if not l or l.startswith('#'):
                continue
            if l.startswith('[') and l.endswith(']'):
                # [rule] or [rule | within COND]: only effects which presuppose COND are meant
                rule, _, w = l[1:-1].partition(' | within ')
                within = self._cond(f, w, 0, 1) if w else None
                continue
            if l.startswith('order '):
                names = [x.strip() for x in l[6:].split('<')]
                for x, y in zip(names, names[1:]):
                    self.order(rule, f, x, labels[x], y, labels[y])
                continue
            if ' || ' in l:             # alternatives: one of them has to hold
                lab = re.match(r'(\w+)\) ', l)
                saved, alts = self.obs, []
                for x in l.split(' || '):
                    self.obs = []
                    got = self.spec(rule, f, x if not lab or re.match(r'\w+\) ', x) else lab.group(0) + x, within)
                    alts.append((all(o['ok'] for o in self.obs), self.obs, got))
                self.obs = saved
                good = [a for a in alts if a[0]] or alts[:1]
                self.obs += good[0][1]
                labels.update(good[0][2])
                continue
            if l.startswith('bind '):   # bind NAME = LABEL.K (argument), LABEL.val (value) or LABEL.outK (what the call stores into its argument)
                name, ref = [x.strip() for x in l[5:].split('=')]
                lab, _, k = ref.partition('.')
                ts = set()
                for e in labels[lab]:
                    ts.add(f.n.base(e.val if k == 'val' else T('out', e.seq, int(k[3:])) if k.startswith('out') else e.args[int(k)] if int(k) < len(e.args) else None))
                ok = len(ts) == 1 and None not in ts
                if ok:
                    e = list(labels[lab])[0]
                    f.n.bind(name, e.val if k == 'val' else T('out', e.seq, int(k[3:])) if k.startswith('out') else e.args[int(k)])
                self.ob(rule, '%s: one local behind %s' % (f.name, labels[lab].desc), ok, labels[lab].loc, '' if ok else 'found %d' % len(ts))
                continue
            if l.startswith('fresh '):
                self.fresh(rule, f, l[6:], labels)
                continue
            lab = re.match(r'(\w+)\) ', l)
            if lab:
                l = l[lab.end():]
            loops, kind, pat, cond = q.split_line(l)
            mode = 'iff'
            if kind in ('only', 'when', 'none', 'some'):
                mode, (kind, _, pat) = kind, pat.partition(' ')
            if kind in ('throws', 'throws?'):
                self.throws(rule, f, cond, mode='iff' if kind == 'throws' else 'when')
                continue
            if kind == 'ends':
                self.ends(rule, f, l, pat, cond)
                continue
            if kind == 'final':
                self.final(rule, f, l, pat, cond, mode)
                continue
            if kind == 'returns':
                self.returns(rule, f, cond)
                continue
            pat, _, having = pat.partition(' @ ')
            evs = [e for e in f.events if e.kind == kind and B.AND(e.g, f.N) and match(pat, q.evtext(f, e))]
            if having:
                # only effects whose condition contains the given literal
                neg = having.startswith('!')
                evs = [e for e in evs if any(v != neg and match(having.lstrip('!').strip(), f.n.atom(a)) for a, v in f.A.literals(e.g))]
            if within is not None:
                evs = [e for e in evs if B.implies(B.AND(e.g, f.N), within)]
            brk = []
            if loops is None and mode != 'none':
                evs = [e for e in evs if not e.loops]
            elif loops is not None and loops != ['*']:
                want = [x[:-7] if x.endswith(' BREAKS') else x for x in loops]
                brk = [x.endswith(' BREAKS') for x in loops]
                evs = [e for e in evs if len(e.loops) == len(want) and all(match(w, f.rng(L)) for w, L in zip(want, e.loops))]
            s = Sel(f, evs, l.split(' | ')[0])
            if lab:
                labels[lab.group(1)] = s
            inst = '%s: %s' % (f.name, l)
            if mode == 'none':
                self.ob(rule, inst, not evs, s.loc, '' if not evs else 'found: ' + f.text(evs[0])[:300])
                continue
            if not evs:
                near = [e for e in f.events if e.kind == kind and match(re.split(r'[( ]', pat)[0] + '*', q.evtext(f, e))]
                self.ob(rule, inst, False, s.loc, 'no such effect' + (' (found: %s)' % '; '.join(
                    ('for %s: ' % ' / '.join(f.rng(L) for L in e.loops) if e.loops else '') + f.text(e)[:200] for e in near[:2]) if near else ''))
                continue
            if mode == 'some':
                self.ob(rule, inst, True, s.loc)
                continue
            bad = ''
            if brk:
                for e in evs:
                    for L, b in zip(e.loops, brk):
                        if not b and (B.AND(L.breaks, f.N) or B.AND(L.exits, f.N)):
                            bad = 'the loop at line %s can be left early' % L.line
            g = 0
            for e in evs:
                g = B.OR(g, e.g)
            if kind == 'ret':
                # value returned under the condition
                u = 0
                for e in f.events:
                    if e.kind == 'ret' and e.val is not None and e.val.k != 'none':
                        u = B.OR(u, e.g)
                c = B.AND(self._cond(f, cond, g, 1), u)
            else:
                c = self._cond(f, cond, g, 1)
            care = B.AND(f.N, f.member(evs))
            a, b = B.AND(g, care), B.AND(c, care)
            if a != b:
                a, b = self.coll(f, a, b)
            x, y = B.AND(a, B.NOT(b)), B.AND(b, B.NOT(a))
            if x and mode != 'when':
                bad += 'happens also when: %s. ' % f.n.gate(x, 2)[:300]
            if y and mode != 'only':
                bad += 'does not happen when: %s.' % f.n.gate(y, 2)[:300]
            self.ob(rule, inst, not bad, s.loc, bad)
        return labels

    def ends(self, rule, f, l, depth, cond):
        """'ends DEPTH | COND': the loops at this nesting depth are left only when COND holds"""
        B = f.A.B
        Ls = [L for L in f.A.loops if getattr(L, 'depth', None) == int(depth)]
        g = 0
        for L in Ls:
            g = B.OR(g, B.OR(L.leave, B.OR(L.breaks, L.exits)))
        a = B.AND(g, f.N)
        c = B.AND(self._cond(f, cond, g, 1), f.N)
        if B.AND(a, B.NOT(c)):
            a, c = self.coll(f, a, c)
        x = B.AND(a, B.NOT(c))
        self.ob(rule, '%s: %s' % (f.name, l), bool(Ls) and not x, '%s:%s' % (f.F.file, Ls[0].line if Ls else f.F.line), 'left also when: %s' % f.n.gate(x, 2)[:300] if x else 'no loop' if not Ls else '')

    def leaves(self, f, t, g):
        B = f.A.B
        if g == 0:
            return
        if isinstance(t, T) and t.k == 'ite':
            yield from self.leaves(f, t.a[2], B.AND(g, t.a[1]))
            yield from self.leaves(f, t.a[3], B.AND(g, B.NOT(t.a[1])))
        else:
            yield t, g

    def final(self, rule, f, l, pat, cond, mode):
        """value of a field when the function returns: 'final FIELD = VALUE | COND' or 'final FIELD := CONDITION'"""
        B, X = f.A.B, f.A.exit
        boolean = ' := ' in pat
        fld, _, want = pat.partition(' := ' if boolean else ' = ')
        if boolean and cond != 'T':
            want += ' | ' + cond
        inst = '%s: %s' % (f.name, l)
        if X is None:
            return self.ob(rule, inst, False, f.rets().loc, 'never returns')
        care = B.AND(X.g, f.N)
        ks = [k for k in X.heap if match(fld, f.n(T('fld', k[0], k[1], 0)))]
        st = [e for e in f.events if e.kind == 'store' and match(fld, f.n(e.args[0]))]
        loc = ', '.join('%s:%s' % (e.file, e.line) for e in st[:3]) or '%s:%s' % (f.F.file, f.F.line)
        if len(ks) > 1:
            return self.ob(rule, inst, False, loc, 'ambiguous: %s' % [f.n(T('fld', k[0], k[1], 0)) for k in ks])
        if ks:
            v = X.heap[ks[0]]
            orig = T('fld', ks[0][0], ks[0][1], 0)
        else:
            v = orig = None
            for fq, ep in X.ep.items():
                if match(fld, fq.split('::')[-1]):
                    v = T('havoc') if ep else None
        if boolean:
            if v is not None and v.k != 'havoc':
                f.A.tobdd(v)
            if v is None or v is T('havoc'):
                return self.ob(rule, inst, False, loc, 'not set here')
            a = f.A.tobdd(v)
            c = self._cond(f, want, a, 1)
            a, c = B.AND(a, care), B.AND(c, care)
        else:
            g = 0
            for t, gg in self.leaves(f, v, care) if v is not None else [(None, care)]:
                same = t is None or t is orig
                txt = fld if same else f.n(t)
                if t is not None and t.k == 'havoc' or t is not None and t.k == 'fld' and orig is not None and t.a[2] == orig.a[2] and t is not orig:
                    txt = 'unknown'
                if match(want, txt):
                    g = B.OR(g, gg)
            c = self._cond(f, cond, g, 1)
            a, c = B.AND(g, care), B.AND(c, care)
        if a != c:
            a, c = self.coll(f, a, c)
        x, y = B.AND(a, B.NOT(c)), B.AND(c, B.NOT(a))
        det = ''
        if x and mode != 'when':
            det += 'also when: %s. ' % f.n.gate(f.norm_gate(x), 2)[:300]
        if y and mode != 'only':
            bad = ''
            if not boolean:
                bad = next((f.n(t)[:120] if t is not None else fld for t, gg in (self.leaves(f, v, B.AND(care, y)) if v is not None else [(None, 1)])), '')
            det += 'not when: %s (value there: %s).' % (f.n.gate(f.norm_gate(y), 2)[:300], bad)
        return self.ob(rule, inst, not det, loc, det)

    def terms_of(self, f, e, gate):
        """all terms the effect depends on: value and arguments, or condition"""
        B = f.A.B
        seen, out = set(), []
        st = B.support(e.g) if gate else list(e.args) + [e.val]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T) and x.id not in seen:
                seen.add(x.id)
                out.append(x)
                if x.k in ('ite', 'bdd'):
                    st.extend(B.support(x.a[1]) if isinstance(x.a[1], int) and x.a[1] > 1 else [])
                elif x.k in ('any', 'anyw', 'find_if') and isinstance(x.a[2], int) and x.a[2] > 1:
                    st.extend(B.support(x.a[2]))
                st.extend(x.a[1:])
        return out

    def fresh(self, rule, f, line, labels):
        """fresh LABEL GLOB after|before LABEL2: the value of the query used by the effect is the one after (before) LABEL2"""
        lab, pat, rel, ref = re.match(r'(\w+) (.*) (after|before) (\w+)$', line).groups()
        s, r = labels[lab], labels[ref]
        inst = '%s: (%s) uses %s as of %s (%s)' % (f.name, s.desc, pat, rel, r.desc)
        bad, n, loc = '', 0, s.loc
        for e in s:
            sel = lambda gate: [(t, f.A.changed(t)) for t in self.terms_of(f, e, gate) if match(pat, f.n(t)) and f.A.changed(t) is not None]
            for t, c in sel(False) or sel(True):
                n += 1
                for x in r:
                    if x.d is None:
                        continue
                    m = self.E.mod_call(x.d)
                    ref_ = {t.a[2]} if t.k == 'fld' else self.refs_of(f, t)
                    if not m & ref_ or (e.seq < x.seq and rel == 'after'):
                        continue
                    last = max([c.get(k, 0) for k in m & ref_] or [0])
                    if (rel == 'after' and last < x.seq) or (rel == 'before' and last >= x.seq):
                        bad = '%s of %s is the one %s %s' % (f.n(t), f.text(e)[:150], 'before' if rel == 'after' else 'after', f.text(x)[:100])
                        loc = e.loc
        if not n:
            bad = 'does not use it'
        self.ob(rule, inst, not bad, loc, bad)

    def refs_of(self, f, t):
        if not hasattr(f, '_cd'):
            f._cd = {}
            for e in f.events:
                if e.kind == 'call' and e.d is not None and isinstance(e.val, T):
                    f._cd[e.val.id] = e.d
        D = f._cd.get(t.id)
        return self.E.ref_call(D) if D is not None else set()

    def order(self, rule, f, n1, s1, n2, s2):
        B = f.A.B
        bad = ''
        loc = s2.loc
        for x in s1:
            for y in s2:
                if x.seq >= y.seq and B.AND(B.AND(x.g, y.g), f.N):
                    bad = '%s comes after %s' % (f.text(x)[:150], f.text(y)[:150])
                    loc = x.loc + ', ' + y.loc
        if not len(s1) or not len(s2):
            bad = 'nothing to order'
        self.ob(rule, '%s: (%s) before (%s)' % (f.name, s1.desc, s2.desc), not bad, loc, bad)


def known():
    p = os.path.join(ROOT, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                # known: property=<id> | <rule> | <instance>
                head, rule, inst = [x.strip() for x in l.split('|', 2)]
                r.append((head.split('=')[1], rule, inst))
    return r


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    mod = importlib.import_module(pid)
    ctx = None
    try:
        ctx = Ctx(pid, a.tier)
        mod.run(ctx)
        need = getattr(mod, 'MIN', 1)
        if len(ctx.obs) < need:
            raise AnalysisError('only %d obligations generated, at least %d expected' % (len(ctx.obs), need))
    except Exception as e:
        if isinstance(e, AnalysisError):
            print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        else:
            print('ANALYSIS-ERROR property=%s internal error' % pid)
            print(traceback.format_exc()[-1500:])
        if ctx is None or all(o['ok'] for o in ctx.obs):
            return 2
        ctx.notes.append('analysis incomplete: %s' % e)
    kn = [(r, i) for p, r, i in known() if p == pid]
    bad, kf = [], []
    for o in ctx.obs:
        if not o['ok']:
            if (o['rule'], o['instance']) in kn:
                kf.append(o)
            else:
                bad.append(o)
    wall = time.time() - ctx.t0
    fs = sorted({ctx.P.funcs[u].d.q for u in ctx.seen if u in ctx.P.funcs})
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o['rule'], {'obligations': 0, 'discharged': 0})
        r['obligations'] += 1
        r['discharged'] += o['ok']
    doc = (mod.__doc__ or '').strip()
    evd = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source (no execution). ' + doc,
            'translation_units': len(ctx.P.tus), 'units_reparsed': ctx.P.fresh,
            'functions_analysed': len(fs), 'functions': fs[:400],
            'obligations': len(ctx.obs), 'discharged': sum(o['ok'] for o in ctx.obs),
            'known_findings': len(kf), 'rules': rules,
            'instances': [{'rule': o['rule'], 'instance': o['instance'][:300], 'loc': o['loc'], 'ok': o['ok']} for o in ctx.obs][:1500],
            'notes': ctx.notes,
        },
        'wall_s': round(wall, 2),
        'assumptions': sorted(ctx.assumptions | set(getattr(mod, 'ASSUMPTIONS', []))),
        'violations': len(bad),
    }
    tmp = os.path.join(ev, '.%s.tmp' % pid)
    json.dump(evd, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ev, pid + '.json'))
    print('property %s: %d obligations under %d rules over %d functions, %d discharged, %.1fs' % (pid, len(ctx.obs), len(rules), len(fs), sum(o['ok'] for o in ctx.obs), wall))
    if a.v:
        for o in ctx.obs:
            print(' ', 'ok ' if o['ok'] else 'BAD', o['rule'], '|', o['instance'][:200], '|', o['loc'], o['detail'][:300])
    for o in kf:
        print('KNOWN-FINDING: property=%s %s | %s' % (pid, o['rule'], o['instance']))
    if bad:
        rp = os.path.join(ev, pid + '.report.txt')
        with open(rp, 'w') as f:
            for o in bad:
                f.write('rule: %s\nobligation: %s\nat: %s\nwhy: %s\n\n' % (o['rule'], o['instance'], o['loc'], o['detail']))
        for o in bad[:12]:
            print('  %s | %s' % (o['rule'], o['instance'][:250]))
            print('    at %s' % o['loc'])
            if o['detail']:
                print('    %s' % o['detail'][:500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
