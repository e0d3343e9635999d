"""Fact base: type-resolved structured dump of the project's translation units.

The dump is produced by tool/pdump (libTooling) from the current source of
/repo with the flags of the real build, and cached per translation unit under a
key made of the content of the unit, of every project header it includes, of
the flags and of the tool.  Nothing here runs project code.
"""
import hashlib, json, os, pickle, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CACHE = os.path.join(BUILD, 'facts')
PDUMP = os.path.join(BUILD, 'pdump')
PDUMP_SRC = os.path.join(VERIF, 'tool', 'pdump.cpp')


class AnalysisError(Exception):
    pass


def flags():
    petsc = '/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include'
    fl = ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    fl += ['-D' + d for d in (
        'BOOST_ALL_DYN_LINK BOOST_ASIO_ENABLE_OLD_SERVICES EIGEN_INITIALIZE_MATRICES_BY_NAN '
        'NPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION PRECICE_NO_GINKGO PRECICE_NO_KOKKOS_KERNELS '
        '_GLIBCXX_ASSERTIONS _GNU_SOURCE preciceCore_EXPORTS').split()]
    inc = [REPO + '/src', REPO + '/_build/src', REPO + '/extras/bindings/c/include',
           REPO + '/extras/bindings/fortran/include', REPO + '/thirdparty/fmt/include']
    fl += ['-I' + i for i in inc]
    if not os.path.exists(REPO + '/_build/src/precice/export.h'):
        fl += ['-I' + os.path.join(VERIF, 'tool', 'gen')]
    for i in ('/usr/include/eigen3', '/usr/include/libxml2',
              '/usr/lib/x86_64-linux-gnu/openmpi/include',
              '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', petsc,
              '/usr/lib/python3/dist-packages/numpy/core/include', '/usr/include/python3.12'):
        fl += ['-isystem', i]
    fl += ['-std=c++17']
    return fl


def sha(b):
    return hashlib.sha256(b).hexdigest()


def build_tool():
    src = open(PDUMP_SRC, 'rb').read()
    stampf = PDUMP + '.stamp'
    want = sha(src)
    if os.path.exists(PDUMP) and os.path.exists(stampf) and open(stampf).read() == want:
        return want
    os.makedirs(BUILD, exist_ok=True)
    cfg = '/usr/lib/llvm-18/bin/llvm-config'
    if not os.path.exists(cfg):
        cfg = 'llvm-config-18'
    cxx = subprocess.check_output([cfg, '--cxxflags'], text=True).split()
    L = '/usr/lib/llvm-18/lib'
    tmp = PDUMP + '.tmp%d' % os.getpid()
    cmd = ['/usr/bin/clang++', '-O1'] + cxx + ['-fno-rtti', PDUMP_SRC, '-o', tmp,
           L + '/libclang-cpp.so.18.1', L + '/libLLVM-18.so', '-Wl,-rpath,' + L]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('cannot build pdump: ' + r.stderr[:2000])
    os.replace(tmp, PDUMP)
    open(stampf, 'w').write(want)
    return want


def list_tus():
    """All non-test translation units of the library, bindings and tools."""
    out = []
    sc = os.path.join(REPO, 'src', 'sources.cmake')
    txt = open(sc).read()
    for m in re.findall(r'(src/[^\s)]*\.cpp)', txt):
        if '/testing/' in m or '/tests/' in m or '.hip.' in m:
            continue
        p = os.path.join(REPO, m)
        if os.path.exists(p):
            out.append(m)
    for extra in ('extras/bindings/c/src/preciceC.cpp', 'extras/bindings/fortran/src/preciceFortran.cpp'):
        if os.path.exists(os.path.join(REPO, extra)):
            out.append(extra)
    dr = os.path.join(REPO, 'src', 'drivers')
    if os.path.isdir(dr):
        for f in sorted(os.listdir(dr)):
            if f.endswith('.cpp'):
                out.append('src/drivers/' + f)
    # a unit that exists on disk next to listed ones but is not listed is not built
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    if len(res) < 80:
        raise AnalysisError('only %d translation units found' % len(res))
    return res


_hash = {}
KEEP = 6     # snapshots of a translation unit kept in the cache


def file_hash(p):
    if p not in _hash:
        try:
            _hash[p] = sha(open(p, 'rb').read())
        except OSError:
            _hash[p] = 'missing'
    return _hash[p]


def _idx(tu):
    return os.path.join(CACHE, tu.replace('/', '_') + '.idx')


def ensure(tus, jobs=8):
    tool = build_tool()
    os.makedirs(CACHE, exist_ok=True)
    fl = flags()
    base = sha((tool + '\0'.join(fl)).encode())
    todo, ok = [], {}
    for tu in tus:
        hit = None
        try:
            ix = json.load(open(_idx(tu)))
            # several snapshots may be kept: the one whose dependencies match wins
            for snap in ix:
                if snap['base'] != base:
                    continue
                if all(file_hash(os.path.join(REPO, d)) == h for d, h in snap['deps'].items()):
                    if os.path.exists(os.path.join(CACHE, snap['out'])):
                        hit = snap
                        break
        except (OSError, ValueError, KeyError):
            pass
        if hit and ix[0] is not hit:
            try:        # most recently used first, so that an old snapshot still in use is not dropped
                t2 = _idx(tu) + '.t%d' % os.getpid()
                json.dump([hit] + [s for s in ix if s is not hit], open(t2, 'w'))
                os.replace(t2, _idx(tu))
            except OSError:
                pass
        if hit:
            ok[tu] = os.path.join(CACHE, hit['out'])
        else:
            todo.append(tu)

    def one(tu):
        out = os.path.join(CACHE, tu.replace('/', '_') + '.tmp%d' % os.getpid())
        cmd = [PDUMP, REPO, out, os.path.join(REPO, tu), '--'] + fl
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            return tu, None, r.stderr[-1500:]
        d = json.loads(open(out, 'rb').read().decode('utf-8', 'replace'))
        os.unlink(out)
        if d.get('errors'):
            return tu, None, r.stderr[-1500:]
        deps = {}
        for f in d['deps']:
            rel = os.path.relpath(f, REPO)
            deps[rel] = file_hash(f)
        deps.setdefault(tu, file_hash(os.path.join(REPO, tu)))
        key = sha((base + json.dumps(deps, sort_keys=True)).encode())[:24]
        name = tu.replace('/', '_') + '.' + key + '.pkl'
        tmp = os.path.join(CACHE, name + '.t%d' % os.getpid())
        with open(tmp, 'wb') as fh:
            pickle.dump(d, fh, protocol=5)
        os.replace(tmp, os.path.join(CACHE, name))
        snap = {'base': base, 'deps': deps, 'out': name}
        ix = []
        try:
            ix = [s for s in json.load(open(_idx(tu))) if s['base'] == base and s['out'] != name]
        except (OSError, ValueError, KeyError):
            ix = []
        keep = ([snap] + ix)[:KEEP]
        for s in ix[KEEP - 1:]:
            try:
                os.unlink(os.path.join(CACHE, s['out']))
            except OSError:
                pass
        t2 = _idx(tu) + '.t%d' % os.getpid()
        json.dump(keep, open(t2, 'w'))
        os.replace(t2, _idx(tu))
        return tu, os.path.join(CACHE, name), None

    if todo:
        with ThreadPoolExecutor(jobs) as ex:
            for tu, p, err in ex.map(one, todo):
                if p is None:
                    raise AnalysisError('cannot parse %s: %s' % (tu, err))
                ok[tu] = p
    return ok, len(todo)


class Decl:
    __slots__ = ('u', 'n', 'q', 'k', 't', 'ps', 'pn', 'c', 'f', 'l', 'nr', 'v', 'pv', 'ov', 'st', 'cst', 'cm',
                 'acc', 'ta', 'of', 'bi', 'val', 'xc', 'tls', 'pi', 'deff', 'dele')

    def __repr__(self):
        return '<%s %s>' % (self.k, self.q or self.n)

    @property
    def short(self):
        return self.n


class TU:
    __slots__ = ('name', 'types', 'decls', 'files', 'raw')


class Func:
    __slots__ = ('d', 'tu', 'node', 'file', 'line', 'end', 'params', 'body', 'inits', 'dep', 'ti')

    @property
    def q(self):
        return self.d.q

    def __repr__(self):
        return '<Func %s>' % self.d.q


class Program:
    def __init__(self):
        self.tus = {}
        self.decl = {}        # usr -> Decl
        self.funcs = {}       # usr -> Func
        self.byq = {}         # qualified name -> [Func]
        self.classes = {}     # qname -> dict
        self.gvars = {}
        self.overriders = {}  # usr -> set(usr)
        self._callers = None

    def func(self, q, nparams=None, file=None, required=True, params=None):
        c = [f for f in self.byq.get(q, []) if not f.dep]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if params is not None:
            c = [f for f in c if len(f.d.ps) == len(params) and all(p in t for p, t in zip(params, f.d.ps))]
        if file is not None:
            c = [f for f in c if f.file.endswith(file)]
        if not c:
            if required:
                raise AnalysisError('anchor function %s not found' % q)
            return None
        return c[0]

    def all_funcs(self):
        return self.funcs.values()


def load(tus=None):
    want = list_tus()
    if tus is not None:
        pats = tus
        sel = [t for t in want if any(t.startswith(p) for p in pats)]
        missing = [p for p in pats if not any(t.startswith(p) for t in want)]
        if missing:
            raise AnalysisError('units vanished: %s' % missing)
    else:
        sel = want
    paths, fresh = ensure(sel)
    P = Program()
    P.fresh = fresh
    for tu in sel:
        raw = pickle.load(open(paths[tu], 'rb'))
        T = TU()
        T.name = tu
        T.types = raw['types']
        T.files = [os.path.relpath(f, REPO) for f in raw['files']]
        T.decls = []
        T.raw = raw
        for i, o in enumerate(raw['decls']):
            u = o.get('u') or ''
            k = o['k']
            local = k in ('local', 'slocal', 'param', 'binding') or not u
            if not local and u in P.decl:
                D = P.decl[u]
                if D.f is None and 'f' in o:
                    D.f = T.files[o['f']]
                    D.l = o['l']
                T.decls.append(D)
                continue
            D = Decl()
            D.u = u if not local else (tu, i)
            D.n = o.get('n', '')
            D.q = o.get('q') or D.n
            D.k = k
            ti = o.get('t', -1)
            D.t = T.types[ti] if ti is not None and ti >= 0 else ''
            D.ps = [T.types[x] for x in o.get('ps', [])]
            D.pn = o.get('pn', [])
            D.c = o.get('c')
            D.f = T.files[o['f']] if 'f' in o else None
            D.l = o.get('l', 0)
            D.nr = o.get('nr', 0)
            D.v = o.get('v', 0)
            D.pv = o.get('pv', 0)
            D.ov = o.get('ov', [])
            D.st = o.get('st', 0)
            D.cst = o.get('cst', 0)
            D.cm = o.get('cm', 0)
            D.acc = o.get('acc')
            D.ta = o.get('ta')
            D.of = o.get('of')
            D.bi = o.get('bi')
            D.val = o.get('val')
            D.xc = o.get('xc', 0)
            D.tls = o.get('tls', 0)
            D.pi = o.get('pi')
            D.deff = o.get('def', 0)
            D.dele = o.get('del', 0)
            T.decls.append(D)
            if not local:
                P.decl[u] = D
        for o, D in zip(raw['decls'], T.decls):
            if o.get('ov') and D.ov and isinstance(D.ov[0], int):
                D.ov = [T.decls[x] for x in o['ov']]
            if D.k == 'binding' and isinstance(D.of, int):
                D.of = T.decls[D.of]
        for fo in raw['funcs']:
            D = T.decls[fo['d']]
            if D.u in P.funcs:
                continue
            F = Func()
            F.d = D
            F.tu = T
            F.node = fo
            F.file = T.files[fo['fi']]
            F.line = fo['l']
            F.end = fo['le']
            F.params = [T.decls[x] for x in fo['p']]
            F.body = fo.get('b')
            F.inits = fo.get('ini', [])
            F.dep = fo.get('dep', 0)
            F.ti = fo.get('ti', 0)
            P.funcs[D.u] = F
            P.byq.setdefault(D.q, []).append(F)
        for co in raw['classes']:
            if co['q'] in P.classes and not P.classes[co['q']].get('dep'):
                continue
            co = dict(co)
            co['tu'] = T
            co['file'] = T.files[co['fi']]
            co['base_names'] = [T.types[b] for b in co['bases']]
            P.classes[co['q']] = co
        for gv in raw['gvars']:
            D = T.decls[gv['v']['d']]
            if D.u not in P.gvars:
                P.gvars[D.u] = (T, gv)
        P.tus[tu] = T
    for D in P.decl.values():
        for b in D.ov or []:
            if isinstance(b, Decl):
                P.overriders.setdefault(b.u, set()).add(D.u)
    # transitive
    changed = True
    while changed:
        changed = False
        for b, s in P.overriders.items():
            add = set()
            for x in s:
                add |= P.overriders.get(x, set())
            if not add <= s:
                s |= add
                changed = True
    alias(P)
    return P


def decl_sigs(P):
    """(kind, qualified name, signature) of the source's own functions and fields"""
    r = {}
    for D in P.decl.values():
        if not D.f or not D.f.startswith('src/') or '<' in D.q or '::' not in D.q:
            continue
        if D.k in ('fn', 'method') and not D.n.startswith('operator'):
            r.setdefault(('F', D.q, ', '.join(D.ps) + (' const' if D.cst else '')), []).append(D)
        elif D.k in ('field', 'sfield'):
            r.setdefault(('D', D.q, D.t), []).append(D)
    return r


def alias(P):
    """a renamed function or field (same scope, same signature, unique) keeps its baseline name"""
    P.renamed = {}
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'baseline_decls.txt')
    if not os.path.exists(p):
        return
    base = {tuple(l.split('\t')) for l in open(p).read().split('\n') if l}
    cur = decl_sigs(P)
    bq, cq = {(k, q) for k, q, t in base}, {(k, q) for k, q, t in cur}
    gone, new = {}, {}
    for k, q, t in base:
        if (k, q) not in cq:
            gone.setdefault((k, q.rpartition('::')[0], t), []).append(q)
    if not gone:
        return
    for (k, q, t), ds in cur.items():
        if (k, q) not in bq:
            new.setdefault((k, q.rpartition('::')[0], t), []).append((q, ds))
    for key, olds in gone.items():
        c = new.get(key, [])
        if len(olds) == 1 and len(c) == 1:
            old, (q, ds) = olds[0], c[0]
            P.renamed[q] = old
            for D in ds:
                D.q, D.n = old, old.rpartition('::')[2]
            if q in P.byq:
                P.byq[old] = P.byq.pop(q)


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print('units', len(P.tus), 'fresh', P.fresh, 'functions', len(P.funcs), 'classes', len(P.classes), 'decls', len(P.decl), '%.1fs' % (time.time() - t))
