"""What a function writes to its output streams: the sequence of texts and values with the loops and conditions under which they are written.

Adjacent literals are merged, so that it does not matter how a text is split over insertions, helpers or constants. White space is
normalised (blanks collapse, line ends are kept). Manipulators are not part of the sequence.
"""
import re
import q

MANIP = re.compile(r'(fn\(&?)?(std::)?(setw|setprecision|setfill|scientific|fixed|showpoint|noskipws|flush)\b|&?std::(scientific|fixed|endl|flush)')


def clean(s):
    s = re.sub(r'[ \t]+', ' ', s)
    s = re.sub(r' *\n[ \n]*', '\n', s)
    return s


def literal(e, t):
    """the text written by an insertion, None for a value"""
    k = e.args[1].k
    if k == 'str':
        return t[1:-1].replace('\\n', '\n').replace('\\"', '"')
    if k == 'char' or k == 'int' and e.q.startswith('std::operator<<'):
        return chr(int(t))
    if k in ('int', 'flt') and re.fullmatch(r'-?\d+(\.\d+)?', t):
        return t
    return None


def canon(r):
    """counting the elements of a sequence is iterating over it"""
    m = re.fullmatch(r'\[0, (?:size\((.*)\)|Mesh::nVertices\((.*)\))\)', r)
    return r if not m else m.group(1) if m.group(1) else m.group(2) + '._vertices'


def elements(t, seq):
    t = re.sub(r'Mesh::vertex\((\w+), iv\)', r'elem(\1._vertices)', t)
    return t.replace('idx(%s, iv)' % seq, 'elem(%s)' % seq)


def tokens(f, extra=()):
    """[[ranges, gate, text or None, value, loc, event]] in the order of the insertions"""
    out = []
    for e in f.events:
        if e.kind != 'call':
            continue
        ins = e.q.endswith('operator<<') and len(e.args) == 2
        if not ins and not any(q.match(p, q.short(e.q)) for p in extra):
            continue
        g = f.norm_gate(e.g)
        if g == 0:
            continue
        f.n.within(e.loops)
        try:
            t = f.n(e.args[1]) if ins else '<%s(%s)>' % (q.short(e.q), ', '.join(f.n(x) for x in e.args))
            if MANIP.match(t):
                continue
            raw = [f.rng(L) for L in e.loops]
            rs = tuple(canon(r) for r in raw)
            if len(raw) == 1 and raw[0] != rs[0]:
                t = elements(t, rs[0])
        finally:
            f.n.within([])
        lit = literal(e, t) if ins else None
        lids = tuple(L.id for L in e.loops)
        if lit is not None and out and out[-1][2] is not None and out[-1][6] == lids and out[-1][1] == g:
            out[-1][2] += lit
            out[-1][5].append(e)
        else:
            out.append([rs, g, lit, t, e.loc, [e], lids])
    res = []
    for o in out:
        if o[2] is not None:
            o[2] = clean(o[2])
            if o[2].strip(' ') == '' and res and res[-1][2] is not None and res[-1][2][-1:] in (' ', '\n', ''):
                continue        # only indentation
        res.append(o)
    return res


def quote(s):
    return '"%s"' % s.replace('\n', '\\n')


def show(f, extra=()):
    for rs, g, lit, t, loc, e, lids in tokens(f, extra):
        yield ('for %s: ' % ' >> '.join(rs) if rs else '') + (quote(lit) if lit is not None else t) + (' | ' + q.expr(f, g) if g != 1 else '')


def check(ctx, rule, f, text, extra=(), what=None):
    """the insertions of the function are the ones of the specification, in this order, in these loops, under these conditions"""
    want = [l.strip() for l in text.strip().split('\n') if l.strip() and not l.strip().startswith('#')]
    have = tokens(f, extra)
    where = '%s:%d' % (f.F.file, f.F.line)
    name = what or f.name
    ctx.seen.add(f.F.d.u)
    for i, w in enumerate(want):
        m = re.match(r'(?:for (.*?): )?(".*?"|[^"|].*?|"[^|]*")(?: \| (.*))?$', w)
        rng, tok, cond = m.group(1), m.group(2), m.group(3)
        inst = '%s: output %d is %s' % (name, i + 1, w[:150])
        if i >= len(have):
            ctx.ob(rule, inst, False, where, 'nothing is written at this position')
            continue
        rs, g, lit, t, loc, evs, lids = have[i]
        e = evs[0]
        bad = []
        wr = [x.strip() for x in rng.split(' >> ')] if rng else []
        if len(wr) != len(rs) or not all(q.match(canon(a), b) for a, b in zip(wr, rs)):
            bad.append('written for %s' % (' >> '.join(rs) or 'once'))
        if tok.startswith('"'):
            ok = lit is not None and clean(tok[1:-1].replace('\\n', '\n')) == lit
        else:
            ok = lit is None and any(q.match(x, t) for x in tok.split(' || ')) or lit is not None and tok == lit.strip()
        if not ok:
            bad.append('writes %s' % (quote(lit) if lit is not None else t)[:200])
        f.n.within(e.loops)
        try:
            B = f.A.B
            care = B.AND(f.N, f.member(evs))
            r = 0
            for x in evs:
                r = B.OR(r, x.g)
            if B.AND(r, care) != B.AND(ctx._cond(f, cond, r, 1) if cond else 1, care):
                bad.append('written if %s' % q.expr(f, g)[:200])
        finally:
            f.n.within([])
        ctx.ob(rule, inst, not bad, e.loc or where, '; '.join(bad))
    ctx.ob(rule, '%s: %d outputs' % (name, len(want)), len(have) <= len(want), where, 'further output: %s' % '; '.join((quote(o[2]) if o[2] is not None else o[3])[:60] for o in have[len(want):][:4]))
