"""The code generated for conditions, as trees of facts."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cppx
import lex

J = cppx.join
ZERO = lex.W(0)


def node(op, x='', v=ZERO, d=ZERO, c=()):
    return {'op': op, 'x': x, 'v': v, 'd': d, 'c': list(c)}


YES, NO = node('yes'), node('no')


def literal(t):
    """(v, d, rest): the value of an operand and what is left of its text"""
    t = list(t)
    typ = ''
    while True:
        if t[:1] == ['('] and cppx.close(t, 0) == len(t):
            t = t[1:-1]
            continue
        m = len(t) > 3 and t[0] == 'static_cast' and t[1] == '<'
        if not m:
            break
        e = t.index('>', 1)
        if cppx.close(t, e + 1) != len(t):
            break
        if J(t[2:e]) != 'std::size_t':
            typ += J(t[2:e])
        t = t[e + 2:-1]
    s = J(t)
    if re.fullmatch(r'-?\d+|0x[0-9a-fA-F]+', s):
        n = int(s, 0 if s.startswith('0x') else 10)      # 64 bits: the sign is a matter of how it is written
        return typ, lex.W(n - (1 << 64) if n >= 1 << 63 else n), lex.dbits(float(n)), ''
    if re.fullmatch(r'-?[\d.]+(e[-+]?\d+)?f?', s):
        return typ, ZERO, lex.dbits(float(s.rstrip('f'))), ''
    m = re.fullmatch(r'(-?)std::numeric_limits<double>::(infinity|quiet_NaN)\(\)', s)
    if m:
        return typ, ZERO, lex.NAN if m.group(2) != 'infinity' else lex.dbits(float(m.group(1) + 'inf')), ''
    return typ, ZERO, ZERO, s


def split(t, op):
    res, cur, i = [], [], 0
    while i < len(t):
        if t[i] in '([{':
            j = cppx.close(t, i)
            cur += t[i:j]
            i = j
            continue
        if t[i] == op:
            res.append(cur)
            cur = []
        else:
            cur.append(t[i])
        i += 1
    return res + [cur]


def join(op, ns):
    flat = []
    for n in ns:
        flat += n['c'] if n['op'] == op else [n]
    unit, zero = ('yes', 'no') if op == 'and' else ('no', 'yes')
    flat = [n for n in flat if n['op'] != unit]
    if any(n['op'] == zero for n in flat):
        return node(zero)
    if len(flat) < 2:
        return flat[0] if flat else node(unit)
    return node(op, c=flat)


def negate(n):
    if n['op'] in ('yes', 'no'):
        return NO if n['op'] == 'yes' else YES
    return n['c'][0] if n['op'] == 'not' else node('not', c=[n])


def tree(t):
    while t[:1] == ['('] and cppx.close(t, 0) == len(t):
        t = t[1:-1]
    for op, name in (('||', 'or'), ('&&', 'and')):
        ps = split(t, op)
        if len(ps) > 1:
            return join(name, [tree(p) for p in ps])
    if t[:1] == ['!']:
        n = tree(t[1:])
        if n['op'] == 'is' and n['x'].endswith('.size()=='):
            return node('is', n['x'][:-2] + '!=', n['v'], n['d'])
        return negate(n)
    if t in (['true'], ['false']):
        return YES if t == ['true'] else NO
    i = 0
    while i < len(t):
        if t[i] in '([{':
            i = cppx.close(t, i)
            continue
        if t[i] in ('==', '!=', '<', '>') and i:
            op = t[i]
            r = t[i + 1:]
            if op in '<>' and r[:1] == ['=']:
                op, r = op + '=', r[1:]
            typ, v, d, s = literal(r)
            return node('is', J(t[:i]) + op + typ + ('(' + s + ')' if s else ''), v, d)
        i += 1
    s = J(t)
    if s.endswith('.empty()'):
        return node('is', s[:-8] + '.size()==')
    return node('is', s)


def returned(t):
    """the condition under which a function returns true"""
    if not t:
        return node('is', 'nothing returned')
    if t[0] == 'if':
        e = cppx.close(t, 1)
        if t[e] == '{':
            b = cppx.close(t, e)
            body, rest = t[e + 1:b - 1], t[b:]
            if body == ['return', 'false', ';']:
                return join('and', [negate(tree(t[2:e - 1])), returned(rest)])
            if body == ['return', 'true', ';']:
                return join('or', [tree(t[2:e - 1]), returned(rest)])
    if t[0] == 'return' and t[-1] == ';' and ';' not in t[:-1]:
        return tree(t[1:-1])
    return node('is', J(t))


STEPS = re.compile(r'readPrepare_(?P<prep>\w+)\(\);'
                   r'|es=Base::(?:do)?[rR]eadUntilAndUpdateLen<FieldIdx_(?P<until>\w+)>\(iter,len\);'
                   r'|es=Base::(?:do)?[rR]eadFromUntilAndUpdateLen<FieldIdx_(?P<a>\w+),FieldIdx_(?P<b>\w+)>\(iter,len\);'
                   r'|es=Base::(?:do)?[rR]eadFrom<FieldIdx_(?P<frm>\w+)>\(iter,len\);'
                   r'|(?P<all>(?:es=|return )Base::(?:doRead|read)\(iter,len\);)'
                   r'|(?P<check>if\(es!=comms::ErrorStatus::Success\)\{break;\})'
                   r'|(?P<ver>Base::doFieldsVersionUpdate\(\);)'
                   r'|if\(!(?P<valid>(?:Base::)?)doValid\(\)\)\{es=comms::ErrorStatus::InvalidMsgData;\}'
                   r'|(?P<skip>autoes=comms::ErrorStatus::Success;|do\{|\}while\(false\);|return es;)'
                   r'|(?P<other>[^;]*;?)', re.S)


def reads(t):
    """([steps], the condition checked first or None)"""
    cond = None
    if t[:3] == ['bool', 'validRead', '=']:
        e = t.index(';')
        cond = tree(t[3:e])
        t = t[e + 1:]
        want = ['if', '(', '!', 'validRead', ')', '{', 'return', 'comms', '::', 'ErrorStatus', '::', 'InvalidMsgData', ';', '}']
        if t[:len(want)] != want:
            cond = node('is', 'not enforced')
        t = t[len(want):]
    text = J(t).replace('auto es', 'autoes')
    res = []
    for m in STEPS.finditer(text):
        g = {k: v for k, v in m.groupdict().items() if v is not None}
        if 'skip' in g or not m.group(0):
            continue
        if 'prep' in g:
            res.append('prep ' + g['prep'])
        elif 'until' in g:
            res.append('until ' + g['until'])
        elif 'a' in g:
            res.append('from ' + g['a'] + ' until ' + g['b'])
        elif 'frm' in g:
            res.append('from ' + g['frm'])
        elif 'all' in g:
            res.append('all')
        elif 'check' in g:
            res.append('check')
        elif 'ver' in g:
            res.append('version')
        elif 'valid' in g:
            res.append('valid' if not g['valid'] else 'base valid')
        else:
            res.append('? ' + m.group(0))
    return res, cond


MODE = re.compile(r'automode=comms::field::OptionalMode::Missing;if\(.*\)\{mode=comms::field::OptionalMode::Exists;\}'
                  r'if\((\S*)\.getMode\(\)==mode\)\{return false;\}(\S*)\.setMode\(mode\);return true;', re.S)
FIXED = re.compile(r'if\((\S*)\.getMode\(\)==comms::field::OptionalMode::Exists\)\{return false;\}(\S*)\.setMode\(comms::field::OptionalMode::Exists\);return true;')


def refresh(t):
    """what a refresh_X function does"""
    s = J(t).replace('auto mode', 'automode')
    m = MODE.fullmatch(s)
    if m and m.group(1) == m.group(2):
        i = t.index('if')
        return {'k': 'mode', 'x': [m.group(1)], 'c': tree(t[i + 2:cppx.close(t, i + 1) - 1])}
    xs = []
    for p in (r'auto lenValue=(.*?);', r'auto realLength=(.*?);', r'auto expectedValue=static_cast<std::size_t>\((.*?)\);',
              r'(?:auto|std::size_t) realValue=(.*?);', r'([^;{}]*)\.setValue\('):
        xs += re.findall(p, s)
    return {'k': 'length' if xs else s, 'x': xs, 'c': YES}


def prepare(t):
    """what a readPrepare_X function does: [[condition, call]]"""
    res = []
    while t:
        c = YES
        if t[0] == 'if':
            e = cppx.close(t, 1)
            c = tree(t[2:e - 1])
            b = cppx.close(t, e)
            body, t = t[e + 1:b - 1], t[b:]
        else:
            e = t.index(';')
            body, t = t[:e + 1], t[e + 1:]
        x = J(body).rstrip(';').replace('static_cast<std::size_t>', '')
        res.append({'c': c, 'x': re.sub(r'\(\((.*)\)\)$', r'(\1)', x)})
    return res


def starts(t):
    """what a constructor assigns"""
    res = []
    while t:
        e = t.index(';')
        s, t = t[:e], t[e + 1:]
        eq = [i for i, x in enumerate(s) if x == '=']
        if eq:
            typ, v, d, rest = literal(s[eq[0] + 1:])
            res.append(node('set', J(s[:eq[0]]) + '=' + typ + ('(' + rest + ')' if rest else ''), v, d))
        else:
            res.append(node('set', J(s)))
    return res


NONE = {'valid': YES, 'refresh': [], 'read': [], 'readc': YES, 'fn': {}, 'prep': {}, 'start': []}


def conditions(h):
    """{scope of a class: what it does about conditions}"""
    res = {}
    for d in h.all():
        if d.kind != 'func' or not d.scope:
            continue
        sc = '::'.join(d.scope)
        get = lambda: res.setdefault(sc, {k: (dict(v) if isinstance(v, dict) else v) for k, v in NONE.items()})
        n, t = d.name, list(d.toks)
        if n in ('valid', 'doValid'):
            get()['valid'] = returned(t)
        elif n in ('read', 'doRead'):
            get()['read'], c = reads(t)
            if c:
                get()['readc'] = c
        elif n in ('refresh', 'doRefresh'):
            s = J(t).replace('Base::doRefresh', 'Base::refresh')
            m = re.fullmatch(r'bool updated=Base::refresh\(\);(.*)return updated;', s)
            xs = re.findall(r'updated=(.*?);', m.group(1)) if m else [s]
            get()['refresh'] = [re.sub(r'^refresh_(\w+)\(\)\|\|updated$', r'\1', x) for x in xs]
        elif n.startswith('refresh_'):
            get()['fn'][n[8:]] = refresh(t)
        elif n.startswith('readPrepare_'):
            get()['prep'][n[12:]] = prepare(t)
        elif n == d.scope[-1] and 'transportField_' in J(t):
            get()['start'] = starts(t)
    return res


if __name__ == '__main__':
    import json
    for p in sys.argv[1:]:
        print(json.dumps(conditions(cppx.Header(open(p).read())), indent=1))
