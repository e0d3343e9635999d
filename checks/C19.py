"""Reading the configuration: every tag and attribute of the file reaches its listener once, in order and exactly as written, and everything else is an error."""
from check import *
from api import *

MIN = 60
X = 'precice::xml::'
CP, TAG, ATT = X + 'ConfigParser::', X + 'XMLTag::', X + 'XMLAttribute::'
NAME = 'cat([size(elem(arg2).m_Prefix) ? cat(elem(arg2).m_Prefix, ":") : basic_string("", allocator())], elem(arg2).m_Name)'
DEF = 'find_if(arg1: (%s == elem(arg1)._fullName))' % NAME
ENTITIES = {'&lt;': '<', '&gt;': '>', '&amp;': '&', '&quot;': '"', '&apos;': "'", '&#38;': '&'}

# an error is raised for tags of version 2, unknown tags and repeated tags
UNKNOWN = '{(NAME == "solver-interface")} | !{any(arg1: (NAME == elem(arg1)._fullName))} | ({(DEF._occurrence == XMLTag::OCCUR_NOT_OR_ONCE)} | {(DEF._occurrence == XMLTag::OCCUR_ONCE)}) & {contains(phi, DEF._fullName)}'
# and for subtags (or namespaces) that are required but missing
MISSING = '!{elem(_subtags)._configured} & ({(elem(_subtags)._occurrence == XMLTag::OCCUR_ONCE)} | {(elem(_subtags)._occurrence == XMLTag::OCCUR_ONCE_OR_MORE)}) & ' \
          '({(size(elem(_subtags)._namespace) == 0)} | !{find(_configuredNamespaces, elem(_subtags)._namespace).second})'


def any_error(ctx, R, f, over, want):
    """an error is raised exactly if some element of the range satisfies the condition (compared as boolean functions)"""
    B = f.A.B
    ctx.spec(R, f, 'throws | {any(%s: *)}' % over)
    g = 0
    for a in B.support(f.A.throwg):
        if hasattr(a, 'k') and a.k == 'any' and f.n(a.a[1]) == over:
            g = B.OR(g, a.a[2])
    w = ctx._cond(f, want, g, 1)
    occ = [a for a in B.support(B.AND(g, w)) if hasattr(a, 'k') and 'XMLTag::OCCUR_' in f.n.atom(a)]
    care = f.axioms
    for x in occ:
        for y in occ:
            if x is not y:      # a tag has one occurrence only
                care = B.AND(care, B.NOT(B.AND(B.atom(x), B.atom(y))))
    x, y = B.AND(B.AND(g, B.NOT(w)), care), B.AND(B.AND(w, B.NOT(g)), care)
    ctx.ob(R, '%s: an element of %s is an error exactly if %s' % (f.name, over, want), not x and not y, f.throws().loc,
           ('error also if ' + f.n.gate(x)[:300] if x else '') + (' no error if ' + f.n.gate(y)[:300] if y else ''))


def run(ctx):
    document(ctx)
    decoded(ctx)
    connected(ctx)
    tags(ctx)
    attributes(ctx)
    values(ctx)


def document(ctx):
    """the complete file is handed to the parser, every element becomes a child of the element it is in, errors of the parser are errors"""
    R = 'document'
    f = ctx.fn(CP + 'readFileContent')
    SIZE = 'filesystem::file_size(path(arg0, path::auto_format), error_code())'
    ctx.spec(R, f, """
        call basic_istream::read(ifstream(arg0, *), string(SIZE, 0, allocator()), SIZE)
        ret return() = string(SIZE, 0, allocator())
        throws | {basic_ios::operator!(ifstream(arg0, *))} | {error_code::operator bool(out(filesystem::file_size))} | {(size(string(SIZE, 0, allocator())) == 0)}
    """.replace('SIZE', SIZE))
    keep = lambda A, F, D: D.n != 'readFileContent' and ctx.policy(A, F, D)
    f = ctx.fn(CP + 'readXmlFile', policy=keep)
    CT = 'ConfigParser::readFileContent(this(), arg0)'
    ctx.spec(R, f, '\n'.join(['store _xmlSAXHandler::%s(*.%s) = fn(precice::xml::%s)' % (a, a, b) for a, b in (
        ('startElementNs', 'OnStartElementNs'), ('endElementNs', 'OnEndElementNs'), ('characters', 'OnCharacters'), ('serror', 'OnStructuredErrorFunc'), ('error', 'OnErrorFunc'),
        ('fatalError', 'OnFatalErrorFunc'))]) + """
        M) call xmlCreatePushParserCtxt(*, this(), basic_string::c_str(CT), size(CT), null())
        P) call xmlParseChunk(unique_ptr(xmlCreatePushParserCtxt(*), *), null(), 0, 1)
        store ConfigParser::_hash(_hash) = utils::preciceHash(CT)
        order M < P
    """.replace('CT', CT))
    f = ctx.fn(CP + 'OnStartElement')
    NEW = 'new(precice::xml::ConfigParser::CTag, (), *)'
    ctx.spec(R, f, """
        store CTag::m_Prefix(NEW.m_Prefix) = arg1
        store CTag::m_Name(NEW.m_Name) = arg0
        store CTag::m_aAttributes(NEW.m_aAttributes) = arg2
        C) call vector::push_back(vector::back(m_CurrentTags).m_aSubTags, NEW) | !{(size(m_CurrentTags) == 0)}
        call vector::push_back(m_AllTags, NEW)
        P) call vector::push_back(m_CurrentTags, NEW)
        order C < P
    """.replace('NEW', NEW))
    ctx.spec(R, CP + 'OnEndElement', 'call vector::pop_back(m_CurrentTags)')
    keep = lambda A, F, D: D.n not in ('decodeXML', 'OnStartElement', 'OnEndElement', 'MessageProxy') and ctx.policy(A, F, D)
    f = ctx.fn(X + 'OnStartElementNs', policy=keep)
    ctx.spec(R, f, """
        for [0, arg6): store lv(idx(*AttributePair()*, idx(arg8, 5*iv))) = xml::decodeXML(string_view(idx(arg8, 3*1+5*iv), -1*idx(arg8, 3*1+5*iv)+idx(arg8, 4*1+5*iv)))
        none call ConfigParser::OnStartElement(arg0, arg1, !~*)
        call ConfigParser::OnStartElement(*)
    """.replace('        none call ConfigParser::OnStartElement(arg0, arg1, !~*)\n', ''))
    for e in f.events:
        if e.kind == 'call' and e.q.endswith('::OnStartElement'):
            a = [f.n(x) for x in e.args]
            ctx.ob(R, 'OnStartElementNs passes name, prefix and attributes on', len(a) == 4 and a[:2] == ['arg0', 'arg1'] and (a[2] == '""' or 'arg2' in a[2]) and 'AttributePair' in a[3],
                   '%s:%d' % (f.F.file, f.F.line), 'passes %s' % ', '.join(x[:80] for x in a))
    ctx.spec(R, ctx.fn(X + 'OnEndElementNs', policy=keep), 'call ConfigParser::OnEndElement(arg0)')
    fatal = '{(%s == XML_ERR_FATAL)} | {(%s == XML_ERR_ERROR)}'
    ctx.spec(R, CP + 'MessageProxy', 'throws | ' + fatal % ('arg0', 'arg0'))
    for n, lev in (('OnErrorFunc', 'XML_ERR_ERROR'), ('OnFatalErrorFunc', 'XML_ERR_FATAL')):
        f = ctx.fn(X + n, policy=keep)
        es = [e for e in f.events if e.kind == 'call' and e.q.endswith('::MessageProxy')]
        ctx.ob(R, '%s reports an error' % n, len(es) >= 1 and all(f.n(e.args[0]) in ('XML_ERR_ERROR', 'XML_ERR_FATAL') for e in es), '%s:%d' % (f.F.file, f.F.line), 'does not report an error')
    fs = [ctx.analyse(F, policy=keep) for F in ctx.funcs(X + 'OnStructuredErrorFunc')]
    for f in fs:
        calls = [e for e in f.events if e.kind == 'call' and e.q.endswith('::MessageProxy')]
        if calls:
            ctx.spec(R, f, 'call ConfigParser::MessageProxy(arg1.level, *) | {(basic_string_view::find(*arg1.message*, "Namespace", *) == *npos)}')
        else:
            ctx.spec(R, f, 'call xml::OnStructuredErrorFunc(arg0, arg1)')
    ctx.need('handlers of structured errors', len(fs), 1)


def decoded(ctx):
    """exactly the predefined entities are replaced, including the form in which the parser passes ampersands on"""
    f = ctx.fn(X + 'decodeXML')
    pairs, strs = {}, set()
    for e in f.events:
        todo = [x for x in list(e.args or []) + [e.val] if hasattr(x, 'k')]
        cond = f.n(e.val) if e.val is not None else ''
        text = ' '.join([f.n(x) for x in todo])
        for m in re.finditer(r'pair\("(&[^"]*;)", (\d+)\)', text):
            pairs.setdefault(m[1], set()).add(chr(int(m[2])))
        strs |= set(re.findall(r'"(&[^"]*;)"', text + str(f.nc(e.cond) if hasattr(f, 'nc') else '')))
    where = '%s:%d' % (f.F.file, f.F.line)
    for k, v in ENTITIES.items():
        ctx.ob('decoding', '%s is decoded' % k, pairs.get(k) == {v} if pairs else k in strs, where, 'decoded as %s' % sorted(pairs.get(k, ())))
    ctx.ob('decoding', 'nothing else is decoded', not (set(pairs) | strs) - set(ENTITIES), where, 'also %s' % sorted((set(pairs) | strs) - set(ENTITIES)))
    again = [e for e in f.events if e.kind == 'call' and e.q.endswith(('basic_string::replace', 'replace_all'))]
    ctx.ob('decoding', 'text that was decoded is not decoded again', not again, where, 'replaces in the decoded text')


def connected(ctx):
    """tags are matched by their complete name, checked, read, announced, followed by their subtags and closed, in the order of the document"""
    R = 'connection'
    keep = lambda A, F, D: D.n not in ('connectTags', 'readAttributes', 'resetAttributes', 'areAllSubtagsConfigured', 'computeMatches', 'gatherCandidates') and ctx.policy(A, F, D)
    f = ctx.fn(CP + 'connectTags', policy=keep)
    once = '({(%s._occurrence == XMLTag::OCCUR_ONCE)} | {(%s._occurrence == XMLTag::OCCUR_NOT_OR_ONCE)})' % (DEF, DEF)
    ctx.spec(R, f, """
        A) for arg2: call XMLTag::resetAttributes(DEF)
        U) for arg2: call unordered_set::emplace(*, DEF._fullName) | ONCE || for arg2: call unordered_set::insert(*, DEF._fullName) | ONCE
        B) for arg2: call XMLTag::readAttributes(*, elem(arg2).m_aAttributes)
        C) for arg2: call Listener::xmlTagCallback(*, arg0, *)
        S) for arg2: store XMLTag::_configured(*) = 1
        D) for arg2: call ConfigParser::connectTags(this(), arg0, *._subtags, elem(arg2).m_aSubTags)
        E) for arg2: call XMLTag::areAllSubtagsConfigured(*)
        F) for arg2: call Listener::xmlEndTagCallback(*, arg0, *)
        order A < B < C < D < E < F
        order A < S
    """.replace('DEF', DEF).replace('ONCE)', 'ONCE)').replace(' ONCE', ' ' + once))
    unknown = UNKNOWN
    if f.atoms('unordered_set::insert(*') or f.atoms('unordered_set::emplace(*'):     # repeated if it was not inserted
        unknown = unknown.replace('{contains(phi, DEF._fullName)}', '!{unordered_set::*(phi, DEF._fullName)*}')
    any_error(ctx, R, f, 'arg2', unknown.replace('DEF', DEF).replace('NAME', NAME))
    keep = lambda A, F, D: D.n not in ('connectTags', 'readXmlFile') and ctx.policy(A, F, D)
    for F in ctx.funcs(CP + 'ConfigParser'):
        if len(F.params) != 3:
            continue
        f = ctx.analyse(F, policy=keep)
        ctx.spec(R, f, """
            R) call ConfigParser::readXmlFile(this(), *arg0*)
            C) call ConfigParser::connectTags(this(), arg1, *arg2*, *CTagPtrVec()*)
            call vector::push_back(CTagPtrVec(), idx(m_AllTags, 0)) | !{(size(m_AllTags) == 0)} || call vector::push_back(CTagPtrVec(), *m_AllTags*) | *
            order R < C
        """.replace(' || call vector::push_back(CTagPtrVec(), *m_AllTags*) | *', '').replace('            call vector::push_back(CTagPtrVec(), idx(m_AllTags, 0)) | !{(size(m_AllTags) == 0)}\n', ''))


def tags(ctx):
    """what a tag declares is kept; reading starts from a reset tag; unknown attributes and missing subtags are errors"""
    R = 'tags'
    ctx.spec(R, TAG + 'XMLTag', """
        store XMLTag::_listener(_listener) = arg0
        store XMLTag::_name(_name) = arg1
        store XMLTag::_namespace(_namespace) = arg3
        store XMLTag::_occurrence(_occurrence) = arg2
        when store XMLTag::_fullName(_fullName) = cat(cat(arg3, ":"), arg1) | !{(size(arg3) == 0)}
        when store XMLTag::_fullName(_fullName) = arg1 | {(size(arg3) == 0)}
    """)
    ctx.spec(R, TAG + 'addSubtag', """
        call vector::push_back(_subtags, new(precice::xml::XMLTag, (arg0), *))
        store XMLTag::_configuredNamespaces(idx(_configuredNamespaces, arg0._namespace)) = 0 | !{(size(arg0._namespace) == 0)}
    """)
    n = 0
    for F in ctx.funcs(TAG + 'addAttribute'):
        n += 1
        ctx.spec(R, ctx.analyse(F), 'call vector::emplace_back(_attributes, arg0) || call vector::push_back(_attributes, arg0)')
    ctx.need('kinds of attributes', n, 5)
    ctx.spec(R, TAG + 'addAttributeHint', 'call map::emplace(_attributeHints, arg0, arg1)')
    FND = '(arg0 == std::visit(lambda{p0._name}, elem(_attributes)))'
    ctx.spec(R, TAG + 'hasAttribute', 'ret return() = <any(_attributes: %s)>' % FND)
    for n in ('Double', 'Int', 'String', 'Boolean'):
        ctx.spec(R, TAG + 'get%sAttributeValue' % n, """
            ret return() = find_if(_attributes: FND)*._value | {any(_attributes: FND)}
            ret return() = arg1 | !{any(_attributes: FND)}
        """.replace('FND', FND))
    ctx.spec(R, TAG + 'getEigenVectorXdAttributeValue', 'when ret return() = find_if(_attributes: %s)*._value' % FND)
    f = ctx.fn(TAG + 'readAttributes')
    ctx.spec(R, f, """
        for _attributes >> lambda: call XMLAttribute::readValue(p0, _fullName, arg0)
        throws | {any(arg0: !any(_attributes: (elem(arg0).first == std::visit(lambda{p0._name}, elem(_attributes)))))}
    """)
    any_error(ctx, R, ctx.fn(TAG + 'areAllSubtagsConfigured'), '_subtags', MISSING)
    keep = lambda A, F, D: D.n != 'resetAttributes' and ctx.policy(A, F, D)
    ctx.spec(R, ctx.fn(TAG + 'resetAttributes', policy=keep), """
        store XMLTag::_configured(_configured) = 0
        for _configuredNamespaces: store second(elem(_configuredNamespaces).second) = 0
        for _subtags: call XMLTag::resetAttributes(elem(_subtags))
    """)
    ctx.spec(R, X + 'configure', 'ret return() = *_hash')


def attributes(ctx):
    """an attribute takes the value that is given, else its default; a required one that is missing, one that cannot be read or one that is not an option is an error"""
    R = 'attributes'
    done = 0
    for F in ctx.funcs(ATT + 'readValue'):
        if F.dep:
            continue
        f = ctx.analyse(F)
        done += 1
        ctx.spec(R, f, """
            store XMLAttribute::_value(_value) = _defaultValue | !{contains(arg1, _name)}
            call xml::readValueSpecific(find(arg1, _name).second, _value) | {contains(arg1, _name)}
            throws | !{_hasDefaultValue} & !{contains(arg1, _name)} | {contains(arg1, _name)} & ({caught(const std::exception &)} | {_hasValidation} & !{contains(_options, *)})
        """)
    ctx.need('types of attributes', done, 4)
    done = 0
    for F in ctx.funcs(ATT + 'XMLAttribute'):
        if F.dep or len(F.params) != 2:
            continue
        f = ctx.analyse(F)
        done += 1
        ctx.spec(R, f, """
            store XMLAttribute::_name(_name) = arg0
            store XMLAttribute::_hasDefaultValue(_hasDefaultValue) = 1
            store XMLAttribute::_defaultValue(_defaultValue) = arg1
        """)
    ctx.need('attributes with defaults', done, 4)
    for F in ctx.funcs(ATT + 'setOptions'):
        if F.dep or 'initializer_list' in str(F.sig if hasattr(F, 'sig') else ''):
            continue
        f = ctx.analyse(F)
        es = [e for e in f.events if e.kind == 'store' and e.q.endswith('::_hasValidation')]
        if es:
            ctx.spec(R, f, 'store XMLAttribute::_hasValidation(_hasValidation) = 1')


def subouts(t):
    if not hasattr(t, 'k'):
        return []
    return ([t] if t.k == 'out' else []) + [y for x in t.a for y in subouts(x)]


def values(ctx):
    """texts that are not completely a representable value of the type are rejected, and the value is the one written"""
    R = 'values'
    for F in ctx.funcs(X + 'readValueSpecific'):
        f = ctx.analyse(F)
        t = F.params[1].t
        ctx.seen.add(F.d.u)
        bad = lambda s, raw: '({basic_ios::fail(%s)} & !{(size(%s) == 0)} | !{basic_ios::eof(%s)})' % (s, raw, s)      # an empty text stands for zero
        if 'VectorXd' in t:
            S = '*istringstream(idx(*vector()*, iv), ios_base::in)*'
            ctx.spec(R, f, """
                call algorithm::split(vector(), arg0, lambda{<(p0 == 59)>}, *)
                for out(algorithm::split): store lv(idx(*VectorXd(size(out(algorithm::split)))*, iv)) = out(basic_istream::operator>>)
                store parameter(arg1) = *
            """)
            VF, VE, V0 = '{basic_ios::fail(%s)}' % S, '!{basic_ios::eof(%s)}' % S, '{(size(idx(*vector()*, iv)) == 0)}'
            any_error(ctx, R, f, 'out(algorithm::split)', '%s & !%s | %s' % (VF, V0, VE))
        elif 'double' in t:
            SL = '{(basic_string::find(arg0, 47, 0) == basic_string::npos)}'
            L, Rt, W = '*substr(arg0, 0, *', '*substr(arg0, 1+*', '*istringstream(arg0, *'
            ctx.spec(R, f, """
                call basic_istream::operator>>(*istringstream(basic_string::substr(arg0, 0, basic_string::find(arg0, 47, 0)), ios_base::in)*, double()) | !SL
                call basic_istream::operator>>(*istringstream(basic_string::substr(arg0, 1+basic_string::find(arg0, 47, 0), *), ios_base::in)*, double()) | !SL
                call basic_istream::operator>>(*istringstream(arg0, ios_base::in)*, double()) | SL
                store parameter(arg1) = (out(basic_istream::operator>>) / out(basic_istream::operator>>)) | !SL
                store parameter(arg1) = out(basic_istream::operator>>) | SL
            """.replace('SL', SL))
            ctx.spec(R, f, 'throws | %s & %s | !%s & (%s | %s)' % (SL, bad(W, 'arg0'), SL, bad(L, 'basic_string::substr(arg0, 0, *)'), bad(Rt, 'basic_string::substr(arg0, 1+*)')))
            calls = [e for e in f.events if e.kind == 'call' and e.q.endswith('operator>>')]
            outs = sorted({x.a[1] for e in f.events if e.kind == 'store' for x in subouts(e.val)})
            for e in f.events:
                if e.kind == 'store' and e.val.k == 'op' and e.val.a[1] == '/' and len(outs) == len(calls):
                    src = [f.n(calls[outs.index(x.a[1])].args[0]) for x in e.val.a[2:] if x.k == 'out']
                    ctx.ob(R, 'a quotient is the part before the slash divided by the part behind it', len(src) == 2 and 'substr(arg0, 0, ' in src[0] and 'substr(arg0, 1+' in src[1],
                           '%s:%d' % (e.file, e.line), 'divides %s' % ' by '.join(x[:120] for x in src))
        elif 'int' in t:
            ctx.spec(R, f, """
                call basic_istream::operator>>(*istringstream(arg0, ios_base::in)*, arg1)
                throws | %s
            """ % bad('*istringstream(arg0, *', 'arg0'))
        elif 'bool' in t:
            ctx.spec(R, f, 'store parameter(arg1) = utils::convertStringToBool(arg0)')
        else:
            ctx.spec(R, f, 'store parameter(arg1) = arg0')
    f = ctx.fn('precice::utils::convertStringToBool')
    ts = set()
    for e in f.rets():
        ts |= set(re.findall(r'== "(\w+)"', f.n(e.val)))
    ts |= {m for a in f.A.B.atoms for m in re.findall(r'== "(\w+)"', f.n.atom(a))}
    ctx.ob(R, 'true values are 1, yes, true and on', ts == {'1', 'yes', 'true', 'on'}, '%s:%d' % (f.F.file, f.F.line), 'found %s' % sorted(ts))

