"""Diagnostics: every message gets the values it announces, names them by the right kind, does not dereference what was just found
missing, and nothing which only serves diagnostics (assertions, debug and trace output, arguments of messages) changes state."""
from check import *
from api import *
import string

MIN = 1500
# writes which stay inside a temporary of the diagnostic itself
TEMPORARY = {'precice::utils::StringMaker<256>::_data'}
# lazily created default state, the same at any time it is asked for
LAZY = {'precice::utils::Parallel::current'}
MACHINERY = ('precice::logging::', 'precice::utils::format_or_error', 'precice::utils::Parallel::getProcessRank', 'getStacktrace', 'std::operator<<', 'std::flush', 'std::basic_ostream',
             'boost::stacktrace', 'fmt::', 'std::abort', 'abort')
NOUN = re.compile(r'''(?:\b|[<:-])(mesh|data|participant)(?: with name| named| name| called)?[ =:]*["']?\s*$''', re.I)


def base(e, tu):
    while True:
        k = e['k']
        if k == 'ctor' and len(e.get('a', [])) == 1:
            e = e['a'][0]
        elif k in ('cast', 'defarg', 'definit'):
            e = e['a'][0]
        elif k == 'call' and 'd' in e and not e.get('a') and e.get('o') is not None and tu.decls[e['d']].n.startswith('operator basic_string_view'):
            e = e['o']
        else:
            return e


def txt(e, tu):
    """text which identifies an expression; pointers and what they point to read the same"""
    e = base(e, tu)
    k = e['k']
    if k in ('var', 'par'):
        return tu.decls[e['d']].n
    if k == 'this':
        return 'this'
    if k == 'mem':
        b = e.get('b')
        return (txt(b, tu) + '.' if b and b['k'] != 'this' else '') + tu.decls[e['d']].n
    if k == 'call' and 'd' in e:
        D = tu.decls[e['d']]
        o = txt(e['o'], tu) if e.get('o') else ''
        if D.n in ('operator->', 'operator*', 'get', 'value'):
            return o
        return o + '.' + D.n + '(' + ','.join(txt(a, tu) for a in e.get('a', [])) + ')'
    if k == 'un' and e['op'] in ('*', '&'):
        return txt(e['a'][0], tu)
    if k in ('int', 'str', 'bool'):
        return repr(e.get('v'))
    return '?%s' % id(e)


def formats(e, tu, inits, d=0):
    """the literal format strings an expression can be, or None if it is built at run time"""
    e = base(e, tu)
    if e['k'] == 'str':
        return [e['v']]
    if e['k'] == 'cond' and d < 4:
        r = [formats(a, tu, inits, d + 1) for a in e['a'][1:3]]
        return None if None in r else r[0] + r[1]
    if e['k'] in ('var', 'par') and d < 4:
        D = tu.decls[e['d']]
        i = inits.get(D.u)
        return formats(i, tu, inits, d + 1) if i is not None else None
    return None


def fields(fmt):
    """(text before the field, argument number) of every replacement field; None for a malformed string"""
    r, auto, manual, text = [], 0, False, ''
    try:
        for lit, fld, spec, conv in string.Formatter().parse(fmt):
            if fld is None:
                continue
            if fld == '':
                r.append((lit, auto))
                auto += 1
            elif fld.isdigit():
                r.append((lit, int(fld)))
                manual = True
            else:
                return None
            if spec and '{' in spec:
                return None
    except ValueError:
        return None
    return None if manual and auto else r


def kind(e, tu, inits, d=0):
    """does an expression name a mesh, a data field or a participant? (None: unknown)"""
    e = base(e, tu)
    k = e['k']
    if k == 'call' and 'd' in e:
        D = tu.decls[e['d']]
        cls = D.q.split('::')[-2] if '::' in D.q else ''
        if D.n == 'getName':
            return {'Mesh': 'mesh', 'Data': 'data', 'ParticipantState': 'participant'}.get(cls)
        return {'getMeshName': 'mesh', 'getDataName': 'data', 'getMesh': None}.get(D.n)
    if k in ('var', 'par', 'mem'):
        D = tu.decls[e['d']]
        if D.u in inits and d < 4:
            r = kind(inits[D.u], tu, inits, d + 1)
            if r:
                return r
        n = D.n.lower()
        s = [w for w in ('mesh', 'data', 'participant') if n.endswith((w + 'name', w)) and (n.endswith('name') or w == 'participant')]
        return s[0] if len(s) == 1 else None
    return None


def user_facing(nodes):
    """all nodes outside of assertions and traces (these print their arguments through generated formats)"""
    st = [nodes]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += reversed(x)
        elif isinstance(x, dict):
            if x.get('m') in ('ASSERT', 'TRACE'):
                continue
            yield x
            st += [v for v in x.values() if isinstance(v, (dict, list))]


def run(ctx):
    P, E = ctx.P, ctx.E
    seen = set()
    nfmt = nkind = nquiet = nnull = 0
    for F in sorted(P.funcs.values(), key=lambda F: (F.file or '', F.line or 0, F.d.u)):
        if F.body is None or F.dep or not F.file or F.file.startswith('/'):
            continue
        tu = F.tu
        ctx.seen.add(F.d.u)
        inits = {}
        nodes = [F.body, [i['e'] for i in F.inits]]
        writes = set()
        for x in effects.walk(nodes):
            if x.get('k') == 'decl':
                for v in x.get('v', []):
                    if isinstance(v, dict) and v.get('i') is not None and 'd' in v:
                        inits[tu.decls[v['d']].u] = v['i']
            elif x.get('k') == 'asg' and x['a'][0]['k'] == 'var':
                writes.add(tu.decls[x['a'][0]['d']].u)
        inits = {k: v for k, v in inits.items() if k not in writes}
        # ---- formats
        for x in user_facing(nodes):
            if x.get('k') != 'call' or 'd' not in x:
                continue
            q = tu.decls[x['d']].q
            if q != 'precice::utils::format_or_error' and not re.match(r'fmt::(v\d+::)?(format|print)$', q):
                continue
            a = x['a']
            fs = formats(a[0], tu, inits)
            loc = '%s:%s' % (F.file, x['l'])
            if fs is None:
                continue
            passes = q.endswith('format_or_error') and len(a) == 1        # a lone string is printed as it is
            for s in fs:
                nfmt += 1
                fl = fields(s)
                if fl is None and not passes:
                    ctx.ob('messages get their values', '%s: "%s"' % (short(F.d.q, 2), s[:60]), False, loc, 'not a well-formed message format')
                    continue
                used = {n for _, n in fl or []}
                given = len(a) - 1
                bad = ''
                if passes:
                    if fl is None or used or '{{' in s or '}}' in s:
                        bad = 'the message announces %d value%s and is given none; it is printed with its braces' % (len(used), '' if len(used) == 1 else 's') if used else 'printed with its braces as it is given no values'
                elif used != set(range(given)):
                    miss, extra = sorted(used - set(range(given))), sorted(set(range(given)) - used)
                    bad = ('the message announces value %s which is not given' % miss[0] if miss else '') + ('; ' if miss and extra else '') + ('value %s is given but never printed' % extra[0] if extra else '')
                key = (loc, s, bad)
                if key in seen:
                    continue
                seen.add(key)
                ctx.ob('messages get their values', '%s: "%s"' % (short(F.d.q, 2), s[:60]), not bad, loc, bad)
                for lit, n in fl or []:
                    m = NOUN.search(lit)
                    if m and n < given:
                        k = kind(a[1 + n], tu, inits)
                        if k:
                            nkind += 1
                            ctx.ob('messages name what they say', '%s: "%s{}"' % (short(F.d.q, 2), lit[-40:]), k == m.group(1).lower(), loc, 'the value is the name of a %s' % k)
        # ---- no effects in diagnostics
        def uses(n):
            r = {}
            for y in effects.walk(n):
                if y.get('k') in ('var', 'par') and 'd' in y:
                    r[tu.decls[y['d']].u] = r.get(tu.decls[y['d']].u, 0) + 1
            return r
        total = None

        def effect(node):
            nonlocal total
            for y in effects.walk(node):
                k = y.get('k')
                if k in ('asg', 'new', 'delete') or k == 'un' and y['op'] in ('++', '--', '++post', '--post'):
                    if k in ('asg', 'un') and y['a'][0]['k'] in ('var', 'par'):
                        V = tu.decls[y['a'][0]['d']]
                        if total is None:
                            total = uses(nodes)
                        if total.get(V.u) == uses(node).get(V.u):        # a local of the diagnostic itself
                            continue
                    return y, 'assigns' if k == 'asg' else 'changes a value' if k == 'un' else k
                if k == 'call' and 'd' in y:
                    D = tu.decls[y['d']]
                    if D.q.startswith(MACHINERY) or D.q in LAZY:
                        continue
                    ms = E.mod_call(D) - TEMPORARY
                    if ms:
                        return y, '%s changes %s' % (short(D.q, 2), short(sorted(ms)[0], 2))
                    if re.match(r'std::(exchange|swap|iter_swap|sort|stable_sort|reverse|rotate|fill|fill_n|iota|copy|copy_n|transform|remove|remove_if|unique|getline|generate|replace|partition)$', D.q):
                        args = [base(v, tu) for v in y.get('a', [])]
                        if total is None:
                            total = uses(nodes)
                        mine = uses(node)
                        if not all(any(z.get('k') in ('var', 'par') and total.get(tu.decls[z['d']].u) == mine.get(tu.decls[z['d']].u) for z in effects.walk(v)) for v in args[:1]):
                            return y, '%s changes what it is given' % D.q
                    if D.u not in P.funcs and y.get('o') is not None and not D.cst and not D.st and not D.v and not effects.ext_read(D) and not D.q.startswith(('std::basic_ostringstream', 'std::basic_stringstream')):
                        o = base(y['o'], tu)
                        if D.n.startswith(('operator basic', 'c_str', 'str', 'what', 'string', 'is_open', 'rdstate', 'good', 'fail')) or o['k'] in ('ctor',):
                            continue
                        return y, '%s is no read access' % short(D.q, 2)
            return None

        def visit(x, m):
            nonlocal nquiet, nnull
            if isinstance(x, list):
                for y in x:
                    visit(y, m)
                return
            if not isinstance(x, dict):
                return
            k = x.get('m')
            what, parts = None, []
            if m is None and k in ('ASSERT', 'DEBUG', 'TRACE'):
                what, parts = k, [x]
            elif m is None and x.get('k') == 'call' and 'd' in x and tu.decls[x['d']].q == 'precice::utils::format_or_error':
                what, parts = 'message', x['a'][1:]
            if what:
                loc = '%s:%s' % (F.file, x['l'])
                r = None
                for p in parts:
                    r = r or effect(p)
                if (loc, what) not in seen or r:
                    seen.add((loc, what))
                    nquiet += 1
                    ctx.ob('diagnostics have no effect', '%s: %s at %s' % (short(F.d.q, 2), {'ASSERT': 'assertion', 'DEBUG': 'debug message', 'TRACE': 'trace message'}.get(what, 'values of a message'), loc.split('/')[-1]),
                           r is None, loc, '' if r is None else r[1])
                if what != 'message':
                    m = what
            if x.get('k') == 'if' and (k == 'CHECK' or m == 'CHECK'):
                null(x)
            if m is None and k in ('CHECK',):
                m = None
            if k == 'CHECK':
                for y in effects.walk(x):
                    if y.get('k') == 'if':
                        null(y)
                        break
            for v in x.values():
                if isinstance(v, (dict, list)):
                    visit(v, m)

        def tested(c, pos, out):
            """pointers, optionals and iterators the condition requires to be there"""
            c = base(c, tu)
            k = c['k']
            if k == 'un' and c['op'] == '!':
                tested(c['a'][0], not pos, out)
            elif k == 'bin' and c['op'] in ('&&', '||'):
                for y in c['a']:
                    tested(y, pos, out)
            elif k == 'bin' and c['op'] in ('!=', '==') and base(c['a'][1], tu)['k'] == 'null':
                if (c['op'] == '!=') == pos:
                    out.add(txt(c['a'][0], tu))
            elif k == 'call' and 'd' in c:
                D = tu.decls[c['d']]
                if D.n in ('operator bool', 'has_value') and pos:
                    out.add(txt(c['o'], tu))
                elif D.n in ('operator!=', 'operator==') and (D.n == 'operator!=') == pos:
                    ar = ([c['o']] if c.get('o') else []) + c.get('a', [])
                    if len(ar) == 2:
                        t = base(ar[1], tu)
                        if t['k'] == 'null' or t['k'] == 'call' and 'd' in t and tu.decls[t['d']].n in ('end', 'cend'):
                            out.add(txt(ar[0], tu))
            elif k in ('var', 'par', 'mem') and pos:
                D = tu.decls[c['d']]
                if D.t and D.t.rstrip(' const').endswith('*'):
                    out.add(txt(c, tu))

        def null(x):
            nonlocal nnull
            c = base(x['c'], tu)
            if c['k'] != 'un' or c['op'] != '!':
                return
            out = set()
            tested(c['a'][0], True, out)
            if not out:
                return
            loc = '%s:%s' % (F.file, x['l'])
            if (loc, 'null') in seen:
                return
            seen.add((loc, 'null'))
            bad = ''
            for y in effects.walk(x['th']):
                o = None
                if y.get('k') == 'call' and 'd' in y and tu.decls[y['d']].n in ('operator->', 'operator*', 'value') and y.get('o') is not None:
                    o = y['o']
                elif y.get('k') == 'un' and y['op'] == '*':
                    o = y['a'][0]
                elif y.get('k') in ('mem', 'call') and y.get('b' if y['k'] == 'mem' else 'o') is not None and y.get('arr', y.get('ar')):
                    o = y['b' if y['k'] == 'mem' else 'o']
                elif y.get('k') == 'call' and 'd' in y and y.get('o') is not None and y['o']['k'] in ('var', 'par', 'mem') and (tu.decls[y['o']['d']].t or '').endswith('*'):
                    o = y['o']
                if o is not None and txt(o, tu) in out:
                    bad = '"%s" is used though it is missing here' % txt(o, tu)
            nnull += 1
            ctx.ob('reports do not use what is missing', '%s: error about a missing %s' % (short(F.d.q, 2), sorted(out)[0]), not bad, loc, bad)

        visit(nodes, None)
    ctx.need('messages get their values', nfmt, 600)
    ctx.need('messages name what they say', nkind, 150)
    ctx.need('diagnostics have no effect', nquiet, 1200)
    ctx.need('reports do not use what is missing', nnull, 10)
