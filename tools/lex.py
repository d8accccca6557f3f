"""Lexical front end of the model: turns an XML document into the node records of spec/Base.tla."""
import math, re, struct
from xml.dom import minidom

WB = 1 << 22

def W(v):
    return [v >> 44, (v >> 22) & (WB - 1), v & (WB - 1)]

NAN = [-2000000, 0, 0]

def dbits(d):
    if math.isnan(d):
        return NAN
    b = struct.unpack('<Q', struct.pack('<d', d))[0]
    return W(b if b < (1 << 63) else -(b & ((1 << 63) - 1)))

WS = ' \r\n\t'

def norm(s):
    s = s.strip(WS)
    return re.sub(' +', ' ', re.sub('[\t\r\n]', ' ', s))

NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
REF = re.compile(r'@?[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z0-9_]+)*\Z')
C_WS = ' \t\n\v\f\r'

def strtol(s):
    """C strtoll with base 0: (ok, mathematical value, negative sign given)"""
    m = re.match(r'[ \t\n\v\f\r]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)', s)
    if not m:
        return None
    d = m.group(2)
    v = int(d, 16) if d[:2].lower() == '0x' else int(d, 8) if d[0] == '0' else int(d)
    return (-v if m.group(1) == '-' else v), m.group(1) == '-'

def v_i(s):
    r = strtol(s)
    if r is None or not -(1 << 63) <= r[0] < (1 << 63):
        return {'ok': False, 'v': W(0)}
    return {'ok': True, 'v': W(r[0])}

STRICT = True

def v_ul(s):
    r = strtol(s)
    if r is None or abs(r[0]) >= (1 << 64):
        return {'ok': False, 'v': W(0)}
    if r[1] and r[0] != 0:
        if STRICT:
            return {'ok': False, 'v': W(0)}
        return {'ok': True, 'v': W(r[0] % (1 << 64))}
    return {'ok': True, 'v': W(r[0])}

BIG_U = [False]

def v_u(s):
    r = strtol(s)
    if r is None or abs(r[0]) >= (1 << 64) or r[0] < 0 or r[0] >= (1 << 32):
        return -1
    if r[0] >= 2000000000:
        BIG_U[0] = True
        return 1999999999
    return r[0]

FP = re.compile(r'[ \t\n\v\f\r]*([+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?[0-9]+)?'
                r'|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|inf(?:inity)?|nan))', re.I)

def v_d(s):
    sp = s.lower() in ('nan', 'inf', '-inf')
    m = FP.match(s)
    if not m:
        return {'ok': False, 'v': W(0), 'sp': False}
    t = m.group(1).lower()
    try:
        d = float.fromhex(t) if 'x' in t else float(t)
    except OverflowError:
        return {'ok': False, 'v': W(0), 'sp': False}
    lit_inf = 'inf' in t
    if math.isinf(d) and not lit_inf:
        return {'ok': False, 'v': W(0), 'sp': False}
    if d != 0 and abs(d) < 2.2250738585072014e-308:
        return {'ok': False, 'v': W(0), 'sp': False}      # ERANGE: std::stod throws
    if d == 0 and re.search(r'[1-9a-f]', re.split('[ep]' if 'x' not in t else 'p', t.replace('0x', ''))[0]):
        return {'ok': False, 'v': W(0), 'sp': False}
    return {'ok': True, 'v': dbits(d), 'sp': sp}

def p_range(s):
    """[a, b] -> (a, b) or None"""
    if len(s) <= 3 or s[0] != '[':
        return None
    sep = s.find(',', 1)
    if sep < 0 or s.find(',', sep + 1) >= 0:
        return None
    end = s.find(']', sep + 1)
    if end != len(s) - 1:
        return None
    a, b = s[1:sep].rstrip(' \t'), s[sep + 1:].lstrip(' \t')[:-1]
    return a, b

def p_hex(s):
    t = s.replace(' ', '')
    if len(t) % 2 or not re.match(r'[0-9a-fA-F]*\Z', t):
        return None
    return t.lower()

def view(s):
    """base views"""
    v = {'s': s, 'lo': s.lower(), 'nm': bool(NAME.match(s)), 'rf': bool(REF.match(s))}
    v['rs'] = ''
    v['rp'] = []
    if v['rf']:
        t = s
        if s[0] == '@':
            if '.' in s:
                v['rs'], t = s[1:].split('.', 1)
            else:
                v['rs'], t = s[1:], ''
        v['rp'] = t.split('.') if t else []
    return v

def num(v):
    s = v['s']
    v['i'] = v_i(s)
    v['ul'] = v_ul(s)
    v['u'] = v_u(s)
    v['d'] = v_d(s)
    return v

def numview(s):
    return num(view(s))

def xview(v):
    """^reference: x.k is 'ref' (x.r the reference), 'lit' (x.s the text)"""
    s = v['s']
    if s.startswith('^'):
        v['x'] = {'k': 'ref', 'r': view(s[1:]), 's': ''}
    else:
        i = s.find('^')
        lit = s[1:] if i > 0 and set(s[:i]) == {'\\'} else s
        v['x'] = {'k': 'lit', 's': lit}
    return v

OPS = ['!=', '>=', '<=', '=', '>', '<']

NUMNAMES = {'sinceVersion', 'deprecated', 'version', 'id', 'dslVersion', 'length', 'bitLength', 'serOffset',
            'defaultValue', 'val', 'idx', 'order', 'displayDecimals', 'displayOffset', 'count', 'validRange',
            'validValue', 'validMin', 'validMax', 'scaling', 'defaultMember', 'defaultValidValue',
            'validateMinLength', 'alg', 'value', 'interfaceFieldName', 'minLength', 'reservedValue'}
XNAMES = {'displayName', 'description', 'defaultValue', 'validValue', 'defaultValidValue'}
HXNAMES = {'defaultValue', 'validValue', 'defaultValidValue'}
CONDNAMES = {'cond', 'construct', 'readCond', 'validCond'}

def stoll(s):
    m = re.match(r'[ \t\n\v\f\r]*([+-]?[0-9]+)', s)
    return bool(m) and -(1 << 63) <= int(m.group(1)) < (1 << 63)

def oper(s):
    """an operand of a condition"""
    v = numview(s)
    xview(v)
    v['pre'] = s[:1] if s[:1] in ('$', '%') else ''
    v['path'] = s[1:].split('.') if v['pre'] else []
    v['sz'] = stoll(s)
    return v

def mkcond(s):
    no = {'ok': False, 'op': '', 'l': oper(''), 'r': oper('')}
    for op in OPS:
        pos = s.find(op)
        while pos > 0 and s[pos - 1] == '\\':
            pos = s.find(op, pos + 1)
        if pos < 0:
            continue
        if pos == 0:
            return no
        l, r = s[:pos].rstrip(' '), s[pos + len(op):].lstrip(' ')
        if not l or not r or l[0] not in '$%':
            return no
        return {'ok': True, 'op': op, 'l': oper(l), 'r': oper(r)}
    if s[:1] in ('$', '%'):
        return {'ok': True, 'op': '', 'l': oper(''), 'r': oper(s)}
    if s[:1] == '!':
        t = s[1:].lstrip(' ')
        if t[:1] in ('$', '%'):
            return {'ok': True, 'op': '!', 'l': oper(''), 'r': oper(t)}
    return no

def mkval(name, s):
    v = view(s)
    if name in NUMNAMES:
        num(v)
    if name in XNAMES:
        xview(v)
    if name in HXNAMES:
        h = p_hex(s)
        v['hx'] = {'ok': h is not None, 'v': h or ''}
    if name == 'units':
        v['un'] = s.replace(' ', '').lower()
    if name == 'validRange':
        r = p_range(s)
        v['rng'] = {'ok': False} if r is None else {'ok': True, 'a': numview(r[0]), 'b': numview(r[1])}
    if name == 'scaling':
        v['sc'] = [numview(x) for x in s.split('/')]
    if name in CONDNAMES:
        v['cd'] = mkcond(s)
    if name == 'platforms':
        v['pl'] = mkplat(s)
    if name == 'interfaces':
        v['il'] = [view(x.strip(WS)) for x in s.split(',')]
    if name in ('lengthPrefix', 'countPrefix', 'elemLengthPrefix', 'termSuffix'):
        v['det'] = s.startswith('$')
        v['dn'] = re.sub(' +', ' ', re.sub('[\t\r\n]', ' ', s[1:])) if v['det'] else ''
        v['dp'] = v['dn'].split('.') if v['det'] else []
    if name == 'field':
        v['pre'] = s[:1] if s[:1] in ('$',) else ''
        t = s[1:] if v['pre'] else ''
        v['acc'] = {'s': t, 'p': t.split('.') if v['pre'] else [], 'rf': bool(REF.match(t))}
    return v

def mkplat(s):
    if s[:1] not in ('+', '-'):
        return {'ok': False, 'op': '', 'l': []}
    rest = s[1:]
    parts = rest.split(',')
    if parts and parts[-1] == '':
        parts.pop()                    # a trailing comma adds nothing
    parts = [p.strip(WS) for p in parts]
    return {'ok': bool(parts) and all(parts), 'op': s[0], 'l': parts}

def kids(el):
    return [c for c in el.childNodes if c.nodeType == c.ELEMENT_NODE]

def text_of(el):
    if kids(el):
        return ''
    for c in el.childNodes:
        if c.nodeType == c.TEXT_NODE:
            return c.data
    return ''

def node(el):
    n = {'t': el.tagName, 'an': [], 'p': {}, 'c': [], 'vs': 0, 'ln': 0}
    attrs = [(a.name, a.value.strip(WS)) for a in (el.attributes.item(i) for i in range(el.attributes.length))]
    for k, s in attrs:
        n['an'].append(k)
        n['p'].setdefault(k, []).append(mkval(k, s))
    va = dict(attrs).get('value', '')
    tx = text_of(el).strip(WS)
    if va and tx:
        n['vs'] = 2
    elif va or tx:
        n['vs'] = 1
        n['v'] = mkval(el.tagName, va if va else norm(tx))
    for ch in kids(el):
        cn = node(ch)
        n['c'].append(cn)
        if cn['vs'] == 1:
            n['p'].setdefault(ch.tagName, []).append(cn['v'])
    return n

BAD = {'t': '?', 'bad': True, 'an': [], 'p': {}, 'c': [], 'vs': 0}

MAXDEPTH = 70
DECL = re.compile(r'\s*(<\?xml version="1\.0"( encoding="(UTF|utf)-8")?\s*\?>)?')

def plain(text):
    """a document within the lexical layer of the model: no namespaces, no document type, the usual declaration"""
    t = text.decode('utf-8', 'replace')
    t = t[DECL.match(t).end():]
    return '<!DOCTYPE' not in t and '<?xml' not in t and 'xmlns' not in t and not re.search(r'<[^>"\'!]*:', t) \
        and not re.search(r'[\w.-]:[\w.-]*\s*=\s*["\']', t)

def depth(el):
    return 1 + max([depth(k) for k in kids(el)] or [0])

def document(text):
    BIG_U[0] = False
    if isinstance(text, str):
        text = text.encode('utf-8')
    if not plain(text):
        return dict(BAD, bigu=True)
    try:
        d = minidom.parseString(text)
    except Exception:
        return dict(BAD)
    if depth(d.documentElement) > MAXDEPTH:
        return dict(BAD, bigu=True)
    n = node(d.documentElement)
    n['bad'] = False
    n['bigu'] = BIG_U[0]
    return n
