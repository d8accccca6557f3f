"""What a generator wrote, as facts: the files, what each includes and defines."""
import math, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import condobs
import cppx
import lex

M64 = 1 << 64


def files(top):
    """relative path -> absolute path of every file below top"""
    r = {}
    for root, dirs, fs in os.walk(top):
        for f in fs + [d for d in dirs if os.path.islink(os.path.join(root, d))]:
            p = os.path.join(root, f)
            r[os.path.relpath(p, top)] = p
    return r


def idnum(t):
    """the unsigned 64-bit number of a case label or enumerator"""
    neg, n = False, t
    if t[0] == '-':
        neg, n = True, t[1:]
    return str(((-1 if neg else 1) * int(cppx.join(n))) % M64)


QUALIFIERS = {'explicit', 'constexpr', 'inline', 'virtual', 'static', 'friend', '~'}


def odd(h):
    """functions which have no type although they do not construct or destroy their class"""
    res = []
    for d in h.all():
        if d.kind == 'func' and d.scope and not d.name.startswith('operator') and d.name.lstrip('~') != d.scope[-1]:
            t = [x for x in d.items if x not in QUALIFIERS]
            if len(t) == 1 and not t[0].isupper():
                res.append('::'.join(d.scope) + '::' + d.name)
    return res


def _strip(toks):
    """a type without its template arguments"""
    return cppx.template_args(toks)[0]


def bundle(h):
    res = {'n': '', 'm': [], 'a': [], 'macro': []}
    for d in h.all():
        if d.kind == 'using' and d.toks[:3] == ['std', '::', 'tuple']:
            res['n'] = d.full
            res['m'] = [_strip(a) for a in cppx.template_args(d.toks)[1] if a]
    for k, v in sorted(h.macros.items()):
        res['macro'].append(k)
        for m in re.finditer(r'using\s+prefix_\s*##\s*(\w+)\s*##\s*suffix_\s*=\s*([\w:]+)\s*<\s*interface_\s*,\s*opts_\s*>\s*;', v):
            res['a'].append([m.group(1), m.group(2)])
    return res


def _cases(t):
    """[(label, body)] of the outermost switch of a token list, in order"""
    res, i = [], t.index('switch')
    o = i + 1
    o = cppx.close(t, o)
    e = cppx.close(t, o)
    b = t[o + 1:e - 1]
    i, cur = 0, None
    while i < len(b):
        if b[i] in ('case', 'default'):
            j = b.index(':', i)
            cur = (b[i + 1:j] if b[i] == 'case' else None, [])
            res.append(cur)
            i = j + 1
            continue
        if b[i] in '([{':
            j = cppx.close(b, i)
            cur[1].extend(b[i:j])
            i = j
            continue
        cur[1].append(b[i])
        i += 1
    return [c for c in res if c[0] is not None], t[:t.index('switch')], t[e:]


def _alias(b):
    """the message type a dispatch case selects"""
    for i in range(len(b)):
        if b[i:i + 3] == ['using', 'MsgType', '=']:
            return _strip(b[i + 3:b.index(';', i)])
    return ''


def dispatch(h):
    """function name -> [[id, [[index, message]]]] as the calls with and without an index find them"""
    res = {}
    for d in h.decls and h.all():
        if d.kind != 'func' or not re.match(r'dispatch\w*Message$', d.name) or d.scope[-1:] != ['dispatch'] or 'switch' not in d.toks:
            continue
        cases = []
        for label, body in _cases(d.toks)[0]:
            if 'switch' in body:
                inner = [[cppx.join(l), _alias(b)] for l, b in _cases(body)[0]]
            else:
                inner = [['0', _alias(body)]]
            cases.append([idnum(label), inner])
        res.setdefault(d.name, []).append(cases)
    return res


def factory(h):
    res = {'make': [], 'count': [], 'uniq': ''}
    for d in h.all():
        if d.kind != 'func':
            continue
        if d.name == 'createMsg':
            if 'switch' not in d.toks:
                continue
            for label, body in _cases(d.toks)[0]:
                inner, idx = [], '0'
                for i in range(len(body)):
                    if body[i:i + 3] == ['idx', '=', '='] or body[i:i + 2] == ['idx', '==']:
                        idx = body[i + (3 if body[i + 1] == '=' else 2)]
                    if body[i] == 'new':
                        inner.append([idx, _strip(body[i + 1:cppx.close(body, body.index('<', i))])])
                res['make'].append([idnum(label), inner])
        elif d.name == 'msgCount' and 'switch' in d.toks:
            for label, body in _cases(d.toks)[0]:
                res['count'].append([idnum(label), body[body.index('return') + 1]])
        elif d.name == 'hasUniqueIds':
            res['uniq'] = cppx.join(d.toks[1:-1])
    return res


def numval(t):
    """a C++ literal (with a sign) as a decimal string, otherwise its text"""
    s = cppx.join(t)
    s = re.sub(r'^static_cast<[\w:]+>\((.*)\)$', r'\1', s)
    return s


def enum(d):
    vals, nxt = [], 0
    for it in d.items:
        if '=' in it:
            k = it.index('=')
            v = numval(it[k + 1:])
            vals.append([cppx.join(it[:k]), v])
        else:
            vals.append([cppx.join(it), '?'])
    return {'t': cppx.join(d.toks), 'v': vals}


NOTWIRE = ('comms::option::def::HasName',)


NUM = re.compile(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?:[uU]?[lL]{0,2})\b(?!\.)')


def arg(a):
    """a template argument, numbers in decimal; what only passes options on is left out"""
    s = NUM.sub(lambda m: str(int(m.group(1), 0)), cppx.join(a))
    return re.sub(r'<T(?:Opt|ExtraOpts|MsgBase|ProtOptions)?(?:::\w+)*(?:\.\.\.)?(?:,T\w+(?:\.\.\.)?)*>', '', s)


def definition(d):
    """base class: its name, positional arguments and options"""
    name, args = cppx.template_args(d.toks)
    o, a = [], []
    for x in args:
        s = arg(x)
        if s in NOTWIRE or re.match(r'T(Opt|ExtraOpts)\b', s) or s == '...':
            continue
        (o if s.startswith('comms::option::') else a).append(s)
    return {'b': name, 'a': a, 'o': sorted(o)}


FLOAT = re.compile(r'^[+-]?\d+\.\d*(?:[eE][+-]?\d+)?f?$')


def observe(top, deep=True, conds=False):
    """facts about the tree below top (C++ headers of the protocol definition)"""
    fs = files(top)
    res = {'files': sorted(fs), 'inc': {}, 'bundle': {}, 'ids': {}, 'disp': {}, 'fac': {}, 'open': {}, 'defs': {}, 'alls': {}, 'enums': {},
           'specials': {}, 'names': {}, 'asserts': {}, 'fn': {}, 'bits': {}, 'valid': {}, 'layers': {}, 'ctor': {}, 'odd': [], 'conds': {}}
    for rel, path in sorted(fs.items()):
        if not rel.endswith('.h'):
            continue
        text = open(path, errors='replace').read()
        try:
            h = cppx.Header(text)
        except Exception as e:
            res['inc'][rel] = ['unreadable: ' + repr(e)]
            continue
        res['inc'][rel] = sorted(h.inc)
        ns = sorted({d.full for d in h.all() if d.kind == 'namespace'}, key=len)
        res['open'][rel] = ns[-1] if ns and all(ns[-1].startswith(x) for x in ns) else '|'.join(ns)
        parts = rel.split('/')
        kind = parts[-2] if len(parts) > 1 else ''
        if kind == 'input':
            res['bundle'][rel] = bundle(h)
        elif kind == 'dispatch':
            res['disp'][rel] = dispatch(h)
        elif kind == 'factory':
            res['fac'][rel] = factory(h)
        elif parts[-1] == 'MsgId.h' and kind != 'field':
            for d in h.all():
                if d.kind == 'enum' and d.name == 'MsgId':
                    e = enum(d)
                    res['ids'][rel] = e
        elif deep and kind != 'options':
            facts(h, res)
        if conds and kind not in ('input', 'dispatch', 'factory', 'options'):
            res['conds'].update(condobs.conditions(h))
        if deep:
            res['odd'] += odd(h)
    return res


LIT = r'(?:static_cast<(?:typename)?(?:Base::)?ValueType>\()?(-?[\w.:<>()+-]+?)\)?'
VAL = 'Base::getValue()'


def number(t, ftype=''):
    """the wide number of a C++ literal; floats by the order of their values"""
    t = re.sub(r'^static_cast<(?:typename)?(?:Base::)?ValueType>\((.*)\)$', r'\1', t)
    m = re.match(r'(-?)std::numeric_limits<(?:typename)?(?:Base::)?ValueType>::(\w+)\(\)$', t)
    if m:
        big = struct.unpack('<f', b'\xff\xff\x7f\x7f')[0] if ftype == 'float' else sys.float_info.max
        return lex.dbits({'lowest': -big, 'max': big, 'infinity': math.inf, 'quiet_NaN': math.nan}[m.group(2)] * (-1 if m.group(1) else 1))
    if ftype:
        return lex.dbits(float(t) or 0.0)
    return lex.W(int(t))


def unwrap(t):
    while t[:1] == ['('] and cppx.close(t, 0) == len(t):
        t = t[1:-1]
    return t


def split_on(t, op):
    res, cur, i = [], [], 0
    while i < len(t):
        if t[i] in '([{':
            j = cppx.close(t, i)
            cur += t[i:j]
            i = j
            continue
        if t[i] == op:
            res.append(cur)
            cur = []
        else:
            cur.append(t[i])
        i += 1
    return res + [cur]


def dnf(t):
    """a condition as a list of lists of atoms"""
    t = unwrap(t)
    ors = split_on(t, '||')
    if len(ors) > 1:
        return [c for x in ors for c in dnf(x)]
    ands = split_on(t, '&&')
    if len(ands) > 1:
        res = [[]]
        for a in ands:
            res = [c + d for c in res for d in dnf(a)]
        return res
    return [[cppx.join(t)]]


def paths(t, conds):
    """(conditions, returned text) of the return statements of a body"""
    i = 0
    while i < len(t):
        if t[i] == 'if':
            e = cppx.close(t, i + 1)
            b = cppx.close(t, e)
            for c in dnf(t[i + 1:e]):
                yield from paths(t[e + 1:b - 1], conds + c)
            i = b
        elif t[i] == 'return':
            e = t.index(';', i)
            yield conds, cppx.join(t[i + 1:e])
            i = e + 1
        elif t[i] == '{':
            b = cppx.close(t, i)
            yield from paths(t[i + 1:b - 1], conds)
            i = b
        else:
            i = cppx.close(t, i) if t[i] in '([{' else i + 1


NEVER = 2000000000


def valid_body(t, ftype, res):
    """what the body of valid() adds to the options: ranges of values and masks with the versions they hold for"""
    s = cppx.join(t)
    m = re.search(r'ValueType Values\[\]=\{([^}]*)\}', s)
    if m:
        res['names'] = [x.split('::')[-1] for x in m.group(1).split(',') if x]
        return
    for conds, ret in paths(t, []):
        if not conds:
            res['other'] = ret
            continue
        if conds in (['Base::valid()'], ['!Base::valid()']):
            continue
        r = [0, NEVER, None, None]
        mask = None
        inf = 0
        for c in conds:
            m1 = re.match(r'(\d+)<=Base::getVersion\(\)$', c)
            m2 = re.match(r'Base::getVersion\(\)<(\d+)$', c)
            m3 = re.match(r'\(Base::getValue\(\)&(\w+)\)!=(\w+)$', c)
            if m1:
                r[0] = max(r[0], int(m1.group(1)))
            elif m2:
                r[1] = min(r[1], int(m2.group(1)))
            elif m3:
                mask = [lex.W(int(x, 0)) for x in m3.groups()]
            elif c == 'std::isnan(%s)' % VAL:
                r[2] = r[3] = lex.NAN
            elif c == VAL + '<0':
                inf = -1
            elif c == '0<' + VAL:
                inf = 1
            elif c == 'std::isinf(%s)' % VAL:
                r[2] = r[3] = lex.dbits(inf * math.inf)
            elif c.startswith(VAL + '=='):
                r[2] = r[3] = number(c[len(VAL) + 2:], ftype)
            elif c.endswith('==' + VAL):
                r[2] = r[3] = number(c[:-len(VAL) - 2], ftype)
            elif c.startswith(VAL + '<='):
                r[3] = number(c[len(VAL) + 2:], ftype)
            elif c.endswith('<=' + VAL):
                r[2] = number(c[:-len(VAL) - 2], ftype)
            else:
                res['other'] = c
        if mask:
            res['bits'].append(r[:2] + mask)
        elif ret == 'true' and r[2] is not None and r[3] is not None:
            res['vals'].append(r)
        else:
            res['other'] = '%s -> %s' % (conds, ret)
    if 'getVersion' in s:
        res['ver'] = True


VOPT = re.compile(r'comms::option::def::(ValidNumValue|ValidNumValueRange|ValidBigUnsignedNumValue|ValidBigUnsignedNumValueRange|InvalidByDefault|VersionStorage|BitmaskReservedBits)(?:<(.*)>)?$')
QUIET = re.compile(r'comms::option::def::(HasCustom\w*|FieldType<.*|Units\w+|VariantHasCustomResetOnDestruct)$')


NOVALID = {'vals': [], 'bits': [], 'names': [], 'inv': False, 'vs': False, 'ver': False, 'other': 'false'}


def validity(d, res):
    """takes the options about valid values out of the definition d"""
    v = {'vals': [], 'bits': [], 'names': [], 'inv': False, 'vs': False, 'ver': False, 'other': 'false'}
    keep = []
    for o in d['o']:
        m = VOPT.match(o)
        if not m:
            if not QUIET.match(o):
                keep.append(o)
            continue
        a = [lex.W(int(x, 0)) for x in m.group(2).split(',')] if m.group(2) else []
        if m.group(1) == 'InvalidByDefault':
            v['inv'] = True
        elif m.group(1) == 'VersionStorage':
            v['vs'] = True
        elif m.group(1) == 'BitmaskReservedBits':
            v['bits'].append([0, NEVER] + a)
        else:
            v['vals'].append([0, NEVER, a[0], a[-1]])
    d['o'] = keep
    return v


def ctor(t):
    """the value a constructor gives to the field"""
    m = re.match(r'static const char Str\[\]="(.*?)";', t)
    if m:
        return ['str', m.group(1)]
    m = re.match(r'static const std::uint8_t Data\[\]=\{([\w,]*)\};', t)
    if m:
        return ['data', ''.join('%02x' % int(x, 0) for x in m.group(1).split(',') if x)]
    m = re.match(r'Base::setValue\((.*)\);$', t)
    if m:
        return ['num', m.group(1)]
    m = re.match(r'initField_(\w+)\(\);$', t)
    if m:
        return ['member', m.group(1)]
    return ['text', t]


def facts(h, res):
    bodies, specials = [], []
    for d in h.all():
        if d.kind == 'class' and d.toks:
            x = definition(d)
            v = validity(x, res)
            res['valid'][d.full] = v
            res['defs'][d.full] = x
        elif d.kind == 'using' and d.name == 'All':
            res['alls'][d.full] = [arg(a) for a in cppx.template_args(d.toks)[1]]
        elif d.kind == 'using' and d.scope and d.scope[-1].endswith('Layers'):
            x = definition(d)
            x['a'] = [y.replace('<TMessage,TAllMessages>', '') for y in x['a']]
            res['layers'].setdefault('::'.join(d.scope), []).append([d.name, x])
        elif d.kind == 'using' and d.toks[:3] == ['comms', '::', 'Message']:
            res['defs'][d.full] = definition(d)
        elif d.kind == 'enum':
            res['enums'][d.full] = enum(d)
        elif d.kind == 'using' and d.name == 'ValueType' or d.kind == 'using' and d.name.endswith('Val'):
            res['names'][d.full] = arg(d.toks)
        elif d.kind == 'func' and d.scope and d.scope[-1].endswith('Common') and d.toks[:1] == ['return']:
            body = d.toks[1:-1]
            if d.name == 'name':
                res['names']['::'.join(d.scope)] = cppx.join(body)
            elif d.name.startswith('value') and len(d.name) > 5:
                specials.append(('::'.join(d.scope), d.name[5:], numval(body)))
        elif d.kind == 'static_assert':
            m = re.match(r'\((MsgM..Len)==(\d+),', cppx.join(d.toks))
            if m:
                res['asserts'].setdefault('::'.join(d.scope), []).append([m.group(1), m.group(2)])
        elif d.kind == 'macro':
            res['bits'].setdefault('::'.join(d.scope), []).append([d.name, [cppx.join(x) for x in cppx.split(d.toks)]])
        elif d.kind == 'func' and d.scope:
            sc = '::'.join(d.scope)
            if d.name == 'valid':
                bodies.append((sc, d.toks))
            elif d.name == d.scope[-1]:
                c = ctor(cppx.join(d.toks))
                if c == ['text', ''] or c[1].startswith('*this='):
                    continue
                if c[0] == 'num':
                    a = res['defs'].get(sc, {'a': ['', '']})['a']
                    c[1] = number(c[1], a[1] if a[1:2] in (['float'], ['double']) else '')
                res['ctor'][sc] = c
    for sc, n, t in specials:
        f = res['names'].get(sc + '::ValueType', '')
        res['specials'].setdefault(sc, []).append([n, number(t, f if f in ('float', 'double') else '')])
    for sc, t in bodies:
        if sc in res['valid']:
            a = res['defs'][sc]['a']
            valid_body(t, a[1] if a[1:2] in (['float'], ['double']) else '', res['valid'][sc])
    for sc in [k for k, v in res['valid'].items() if v == NOVALID]:
        del res['valid'][sc]


if __name__ == '__main__':
    import json
    o = observe(sys.argv[1])
    for k in sys.argv[2:]:
        print(k, json.dumps(o[k], indent=1))
