"""Field definitions: what each kind of field may be given, systematically and at random."""
from pools import *

COMMON = {
    'displayName': ['Nice', '', '^p.Str', '^p.Bu.m3.ds', '\\^p.Str', '\\\\^x', '^p.I', '^nope', 'a^b'],
    'description': ['Some text', '', '^p.Str', '^p.Nope'],
    'sinceVersion': ['0', '1', '3', '5', '6', '-1', 'x'],
    'deprecated': ['0', '1', '4', '5', '6', 'x'],
    'removed': BOOLS,
    'semanticType': ['none', 'version', 'messageId', 'length', 'LENGTH', '', 'custom'],
    'pseudo': BOOLS, 'fixedValue': BOOLS, 'displayReadOnly': BOOLS, 'displayHidden': ['true'],
    'customizable': BOOLS, 'failOnInvalid': BOOLS, 'forceGen': BOOLS,
    'valueOverride': ['any', 'replace', 'extend', 'none', '', 'Replace', 'bad'],
    'readOverride': ['any', 'replace', 'extend', 'none', 'bad'], 'writeOverride': ['replace', 'none'], 'refreshOverride': ['replace', 'extend'],
    'lengthOverride': ['replace', 'bad'], 'validOverride': ['replace', 'extend'], 'nameOverride': ['replace', 'none', 'EXTEND'],
    'copyCodeFrom': ['p.I', 'p.Bu', 'p.Nope', 'p'],
    'validateMinLength': ['0', '1', '2', '3', '4', '5', '8', 'x', '-1'],
}
REUSE = {'int': ['p.I', 'p.Neg', 'p.Big', 'p.En', 'p.Nope', 'p.Len'], 'enum': ['p.En', 'p.Ids', 'p.I'], 'set': ['p.St'], 'float': ['p.Fl', 'p.Db'],
         'string': ['p.Str', 'p.Zs'], 'data': ['p.Da'], 'bundle': ['p.Bu'], 'bitfield': ['p.Bf'], 'list': ['p.Li'], 'ref': ['p.Re', 'p.ReBu'],
         'optional': ['p.Op'], 'variant': ['p.Va']}
ENDIAN = ['big', 'little', 'BIG', '', 'middle']
NUMV = INTVALS + ['S', 'p.I', 'p.I.S1', 'p.Neg', 'p.Big', 'p.En.V300', 'p.Bu.m1.q', 'p.Nope', 'p.Fl', 'p.Bu.m3.deep']
KIND = {
    'int': {
        'type': INTTYPES + ['UINT8', 'int7', ''],
        'length': ['1', '2', '3', '4', '5', '7', '8', '9', '0', '-1', '', 'x'],
        'bitLength': ['8', '3', ''],
        'endian': ENDIAN,
        'defaultValue': NUMV, 'defaultValidValue': ['0', '5', '300', 'S', 'p.I', 'x', '-1'],
        'serOffset': ['0', '1', '-1', '5', '-5', '100', '-100', '127', '128', '255', '256', '-2000', '2000', '70000', '-9223372036854775807', '9223372036854775807', 'x', '', 'p.I'],
        'scaling': ['1/2', '3', '1/0', '2/4', '-1/10', 'x', '1/', '/2', '1/2/3', '', '0', '9223372036854775807/2'],
        'units': ['mm', 'sec', 'Millimeters', 'kilo meters', '', 'parsec'],
        'validRange': RNGVALS, 'validValue': ['0', '4', '5', '6', '11', '256', '-1', 'S', 'p.I', 'x', ''], 'validMin': ['0', '5', '100', '-1', 'S', 'x'],
        'validMax': ['0', '5', '100', '255', '256', 'x', 'p.En.V2'],
        'validCheckVersion': BOOLS, 'nonUniqueSpecialsAllowed': BOOLS, 'displayDecimals': ['0', '2', '-1', 'x', ''],
        'displayOffset': ['0', '-5', '5', 'x', '9223372036854775808'], 'signExt': BOOLS, 'displaySpecials': ['true', 'false'],
        'availableLengthLimit': BOOLS,
    },
    'enum': {
        'type': INTTYPES + ['', 'float'], 'length': ['1', '2', '3', '0', '9', '', 'x'], 'bitLength': ['4', ''], 'endian': ENDIAN,
        'defaultValue': NUMV + ['V', 'W', 'p.En.V1', 'p.En'], 'nonUniqueAllowed': BOOLS, 'validCheckVersion': BOOLS, 'hexAssign': BOOLS, 'availableLengthLimit': BOOLS,
    },
    'set': {
        'type': INTTYPES + [''], 'length': ['1', '2', '3', '5', '8', '9', '0', '', 'x'], 'bitLength': ['4', '', '65'], 'endian': ENDIAN,
        'defaultValue': BOOLS + ['p.St.b3', 'p.St', 'p.Bf.hi.z', 'p.I'], 'reservedValue': BOOLS + ['p.St.b3', 'p.Nope'], 'nonUniqueAllowed': BOOLS,
        'validCheckVersion': BOOLS, 'availableLengthLimit': BOOLS,
    },
    'float': {
        'type': ['float', 'double', 'FLOAT', 'int8', ''], 'endian': ENDIAN, 'defaultValue': FPVALS + ['S', 'p.Fl', 'p.Fl.sp', 'p.I', 'p.Big', 'p.Nope', 'p.Neg.M'],
        'validRange': FPRNGS, 'validFullRange': BOOLS, 'validValue': FPVALS, 'validMin': FPVALS, 'validMax': FPVALS,
        'validCheckVersion': BOOLS, 'units': ['mm', 'rad', 'bad'], 'displayDecimals': ['3', 'x'], 'nonUniqueSpecialsAllowed': BOOLS, 'displaySpecials': ['true'],
    },
    'bitfield': {'endian': ENDIAN, 'copyValidCondFrom': ['p.Bf', 'p.Bu', 'p.Nope'], 'validCond': ['$m1 = 1', '$nope = 1', '%a = 1']},
    'bundle': {'reuseAliases': BOOLS, 'copyValidCondFrom': ['p.Bu', 'p.Bf'], 'validCond': ['$m1 = 1', '$m1', '$nope = 1', '']},
    'string': {
        'length': ['0', '1', '3', '8', '-1', 'x', '4294967296', ''], 'encoding': ['utf-8', ''], 'zeroTermSuffix': BOOLS,
        'defaultValue': ['hello', '', '^p.Str', '^p.Da', '^p.Bu.m3.ds', '\\^x', 'longer than eight'],
        'defaultValidValue': ['x', '^p.Str', '^p.I'], 'validValue': ['v', '^p.Zs', '^bad', ''],
        'lengthPrefix': ['p.Len', 'p.I', 'p.Str', 'p.Nope', '$sib', '', 'p.Big', 'p.Neg', 'p.Re'],
    },
    'data': {
        'length': ['0', '1', '2', '8', 'x'], 'defaultValue': ['', '00', '0102', '1', 'zz', '01 02 0a', 'AbCd', '^p.Da', '^p.Str', '^'],
        'defaultValidValue': ['aa', 'x', '^p.Da'], 'validValue': ['00', '0g', '^p.Da', '^p.Bu'], 'lengthPrefix': ['p.Len', 'p.I', 'p.Da', '$sib'],
    },
    'list': {
        'count': ['1', '3', '0', '-1', 'x', '4000000000'], 'element': ['p.I', 'p.Bu', 'p.Nope', 'p', 'p.Str', 'p.Li'], 'countPrefix': ['p.I', 'p.Len', 'p.Str', '$sib', 'p.Big'],
        'lengthPrefix': ['p.I', 'p.Len', '$sib', 'p.Nope', 'p.Bu'], 'elemLengthPrefix': ['p.I', 'p.Len', 'p.Da', '$sib'], 'elemFixedLength': BOOLS,
        'termSuffix': ['p.I', 'p.Len', '$sib', 'p.Str'],
    },
    'ref': {'field': NUMREFS, 'bitLength': ['8', '3', '']},
    'optional': {'defaultMode': ['tent', 'exist', 'miss', 'tentative', 'exists', 'missing', 't', 'e', 'm', 'Exists', 'bad', ''],
                 'cond': ['$sib = 1', '$nope', 'x', '', '%iface = 1', '$sib != 3'], 'displayExtModeCtrl': ['true'], 'missingOnReadFail': BOOLS, 'missingOnInvalid': BOOLS,
                 'field': ['p.I', 'p.Bu', 'p.Nope', 'p.Op', 'p.Str']},
    'variant': {'defaultMember': ['m1', 'm2', '0', '1', '2', '-1', 'nope', 'p.En.V1', 'p.I', 'p.En', '', 'x y'], 'displayIdxReadOnlyHidden': ['true']},
}


def base(kind, name):
    """the smallest accepted definition of the kind"""
    if kind == 'int':
        return f('int', name, type='uint8')
    if kind == 'enum':
        return f('enum', name, f('validValue', 'V', val='1'), type='uint8')
    if kind == 'set':
        return f('set', name, f('bit', 'B', idx='0'), length='1')
    if kind == 'float':
        return f('float', name, type='float')
    if kind == 'bitfield':
        return f('bitfield', name, f('int', 'm1', type='uint8', bitLength='3'), f('set', 'm2', bitLength='5'))
    if kind == 'bundle':
        return f('bundle', name, f('int', 'm1', type='uint8'), f('int', 'm2', type='int16'))
    if kind == 'string':
        return f('string', name)
    if kind == 'data':
        return f('data', name)
    if kind == 'list':
        return f('list', name, f('int', 'el', type='uint16'))
    if kind == 'ref':
        return f('ref', name, field='p.I')
    if kind == 'optional':
        return f('optional', name, f('int', 'in', type='uint8'))
    if kind == 'variant':
        return f('variant', name, f('int', 'm1', type='uint8'), f('string', 'm2'))
    raise KeyError(kind)


KINDS = list(KIND)


def props(kind):
    d = dict(COMMON)
    d.update(KIND[kind])
    d['reuse'] = REUSE[kind]
    d['reuseCode'] = ['true', 'false', 'x']
    return d


def singles(kind):
    """every property with every value, as an attribute and as a child element"""
    for p, vs in props(kind).items():
        for v in vs:
            for child in (False, True):
                e = base(kind, 't')
                apply(e, p, v, child)
                yield e


def apply(e, p, v, child=False):
    composite = e.t in ('bundle', 'bitfield', 'list', 'optional', 'variant')
    if not child:
        e.set(p, v)
        return
    e.a = [(k, x) for k, x in e.a if k != p]
    if composite and e.c and not any(c.t in ('members', 'element', 'field') for c in e.c):
        w = {'bundle': 'members', 'bitfield': 'members', 'variant': 'members', 'list': 'element', 'optional': 'field'}[e.t]
        e.c = [E(w, None, e.c)]
    e.c.append(E(p, None, (), v) if len(v) % 2 else E(p, {'value': v}))


def rprops(r, e, prob=0.12, valid=0.8, pool=None):
    """random further properties"""
    for p, vs in (pool or props(e.t)).items():
        if r.random() < prob:
            n = max(1, int(len(vs) * 0.5)) if r.random() < valid else len(vs)
            apply(e, p, vs[r.randrange(n)], r.random() < 0.25)
    return e


# ---------------------------------------------------------------- random definitions, mostly accepted

def rver(r, e, p=0.15):
    if r.random() < p:
        e.set('sinceVersion', r.choice(['0', '1', '2', '3', '4', '5']))
    if r.random() < p:
        e.set('deprecated', r.choice(['2', '3', '4', '5']))
        if r.random() < 0.5:
            e.set('removed', r.choice(['true', 'true', 'false']))
    elif r.random() < 0.02:
        e.set('removed', 'true')
    return e


def limits(t, ln=None):
    b = {'8': 8, '16': 16, '32': 32, '64': 64, 'var': 64}[t.replace('uint', '').replace('int', '')]
    if ln:
        b = ln * 8 if 'var' not in t else min(64, ln * 7)
    return (0, (1 << b) - 1) if t[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def rnum(r, lo, hi, wild=0.03):
    if r.random() < wild:
        return r.choice(INTVALS)
    k = r.random()
    if k < 0.2:
        v = lo + r.randrange(3)
    elif k < 0.4:
        v = hi - r.randrange(3)
    elif k < 0.8:
        v = max(lo, min(hi, r.randrange(-3, 20)))
    else:
        v = r.randint(lo, hi)
    return r.choice(['%d', '%d', '%d', '0x%x', '%d'])% v if v >= 0 else str(v)


def rint(r, name, bits=None, env=None, small=False):
    t = r.choice(INTTYPES) if bits is None else r.choice(INTTYPES[:8])
    if bits is not None:
        while limits(t)[1].bit_length() + (t[0] != 'u') < min(bits, 64):
            t = r.choice(INTTYPES[:8])
    e = f('int', name, type=t)
    full_ = {'8': 1, '16': 2, '32': 4, '64': 8, 'var': 10}[t.replace('uint', '').replace('int', '')]
    ln = None
    if bits is None and r.random() < 0.35:
        ln = r.randrange(1, full_ + 1)
        e.set('length', ln)
    if bits is not None:
        e.set('bitLength', bits)
        lo, hi = (0, (1 << bits) - 1) if t[0] == 'u' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    else:
        lo, hi = limits(t, ln)
    if small:
        return e
    if r.random() < 0.2:
        e.set('serOffset', r.choice(['1', '-1', '10', '-10', '100', '-100', str(hi // 2), str(-(hi // 2))]))
    names = []
    if r.random() < 0.5:
        for i in range(r.randrange(1, 4)):
            s = f('special', 'S%d' % i if r.random() < 0.95 else 'S0', val=rnum(r, lo, hi) if r.random() < 0.85 or not names else r.choice(names))
            if r.random() < 0.2:
                s.set('displayName', 'Sp %d' % i)
            if r.random() < 0.1:
                s.set('description', 'spec')
            e.c.append(rver(r, s))
            names.append('S%d' % i)
        if r.random() < 0.3:
            e.set('nonUniqueSpecialsAllowed', r.choice(['true', 'false']))

    def val():
        if names and r.random() < 0.25:
            return r.choice(names)
        if r.random() < 0.06:
            return r.choice(NUMREFS)
        return rnum(r, lo, hi)
    if r.random() < 0.5:
        e.set('defaultValue', val())
    elif r.random() < 0.1:
        e.set('defaultValidValue', val())
    if r.random() < 0.5:
        for i in range(r.randrange(1, 6)):
            k = r.choice(['validRange', 'validRange', 'validRange', 'validValue', 'validMin', 'validMax'])
            if k == 'validRange':
                a, b = rnum(r, lo, hi, 0), rnum(r, lo, hi, 0)
                if int(a, 0) > int(b, 0):
                    a, b = b, a
                v = '[%s, %s]' % (a, b)
                if names and r.random() < 0.1:
                    v = '[%s, %s]' % (a, r.choice(names))
            else:
                v = val()
            if r.random() < 0.35 and e.get(k) is None:
                e.set(k, v)
            else:
                e.c.append(rver(r, E(k, {'value': v}), 0.2))
    for p, q in (('units', 0.1), ('scaling', 0.2), ('displayDecimals', 0.1), ('displayOffset', 0.1), ('signExt', 0.1), ('validCheckVersion', 0.2), ('endian', 0.2), ('availableLengthLimit', 0.1)):
        if r.random() < q:
            e.set(p, r.choice(KIND['int'][p][:4]))
    return e


def renum(r, name, bits=None, env=None):
    i = rint(r, name, bits, small=True)
    e = E('enum', i.a)
    t = i.get('type')
    if bits is not None:
        lo, hi = (0, (1 << bits) - 1) if t[0] == 'u' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    else:
        lo, hi = limits(t, int(i.get('length')) if i.get('length') else None)
    names = []
    for k in range(r.randrange(1, 5)):
        v = f('validValue', 'V%d' % k if r.random() < 0.97 else 'V0', val=rnum(r, lo, hi, 0.01) if r.random() < 0.9 or not names else r.choice(names + NUMREFS[:4]))
        if r.random() < 0.15:
            v.set('displayName', r.choice(['Val', '^p.Str', '^p.Nope', '']))
        if r.random() < 0.1:
            v.set('description', 'dd')
        e.c.append(rver(r, v))
        names.append('V%d' % k)
    if r.random() < 0.5:
        e.set('defaultValue', r.choice(names) if r.random() < 0.6 else rnum(r, lo, hi))
    for p, q in (('nonUniqueAllowed', 0.4), ('validCheckVersion', 0.2), ('endian', 0.2), ('availableLengthLimit', 0.1)):
        if r.random() < q:
            e.set(p, r.choice(KIND['enum'][p][:4]))
    if t[0] == 'u' and r.random() < 0.2:
        e.set('hexAssign', 'true')
    return e


def rset(r, name, bits=None, env=None):
    e = f('set', name)
    n = bits or 64
    if bits is not None:
        e.set('bitLength', bits)
        if r.random() < 0.2:
            e.set('type', r.choice(['uint8', 'uint16', 'uint32', 'uint64']))
    else:
        ln = r.choice([1, 1, 2, 3, 4, 5, 8])
        if r.random() < 0.3:
            e.set('type', r.choice(['uint8', 'uint16', 'uint32', 'uint64', 'uint64', 'uintvar']))
            if r.random() < 0.5:
                e.set('length', ln)
        else:
            e.set('length', ln)
        n = ln * 8
    for k in range(r.randrange(0, 6)):
        b = f('bit', 'B%d' % k if r.random() < 0.97 else 'B0', idx=r.randrange(0, n) if r.random() < 0.97 else r.choice(['-1', n, 'x', '']))
        if r.random() < 0.25:
            b.set('defaultValue', r.choice(['true', 'false', 'p.St.b3']))
        if r.random() < 0.15:
            b.set('reserved', r.choice(['true', 'false']))
        if r.random() < 0.15:
            b.set('reservedValue', r.choice(['true', 'false']))
        if r.random() < 0.1:
            b.set('displayName', 'Bit')
        e.c.append(rver(r, b))
    for p, q in (('nonUniqueAllowed', 0.4), ('validCheckVersion', 0.2), ('endian', 0.2), ('defaultValue', 0.3), ('reservedValue', 0.3), ('availableLengthLimit', 0.1)):
        if r.random() < q:
            e.set(p, r.choice(KIND['set'][p][:4]))
    return e


def rfloat(r, name, env=None):
    t = r.choice(['float', 'double'])
    e = f('float', name, type=t)
    vals = ['0', '1', '-1', '1.5', '2.5', '-2.25', '3', '1e10', '0.1', '3.4028234663852886e38', '-3.4028234663852886e38', 'inf', '-inf', 'nan', '1e38', '1e300', '-0', '1e-300', '0x1p-3', '4', '5']
    names = []
    if r.random() < 0.4:
        for k in range(r.randrange(1, 4)):
            e.c.append(rver(r, f('special', 'S%d' % k, val=r.choice(vals))))
            names.append('S%d' % k)
        if r.random() < 0.4:
            e.set('nonUniqueSpecialsAllowed', r.choice(['true', 'false']))
    if r.random() < 0.5:
        e.set('defaultValue', r.choice(vals + names + ['p.Fl', 'p.I', 'p.Fl.sp', 'p.Big']))
    nums = ['-3', '-2', '-1', '0', '1', '1.5', '2', '2.5', '3', '4', '10']
    if r.random() < 0.6:
        for k in range(r.randrange(1, 5)):
            p = r.choice(['validRange', 'validRange', 'validRange', 'validValue', 'validMin', 'validMax', 'validFullRange'])
            if p == 'validRange':
                a, b = sorted([r.choice(nums), r.choice(nums)], key=float)
                v = '[%s, %s]' % (a, b)
                if r.random() < 0.1:
                    v = '[%s, %s]' % (r.choice(['-inf', '0', '-1']), r.choice(['inf', '9', 'nan']))
            elif p == 'validFullRange':
                v = r.choice(['true', 'false'])
            else:
                v = r.choice(nums) if r.random() < 0.7 else r.choice(vals + names)
            if r.random() < 0.4 and e.get(p) is None:
                e.set(p, v)
            else:
                e.c.append(rver(r, E(p, {'value': v}), 0.15))
    for p, q in (('units', 0.1), ('validCheckVersion', 0.2), ('endian', 0.3), ('displayDecimals', 0.1)):
        if r.random() < q:
            e.set(p, r.choice(KIND['float'][p][:2]))
    return e


def rstring(r, name, sibs=(), env=None):
    e = f('string', name)
    k = r.random()
    if k < 0.25:
        e.set('length', r.choice(['1', '3', '8']))
    elif k < 0.4:
        e.set('zeroTermSuffix', 'true')
    elif k < 0.6:
        prefix(r, e, 'lengthPrefix', sibs)
    if r.random() < 0.05:
        e.set('length', '5')
    if r.random() < 0.05:
        e.set('zeroTermSuffix', r.choice(['true', 'false']))
    for p, q in (('defaultValue', 0.4), ('defaultValidValue', 0.1), ('validValue', 0.15), ('encoding', 0.1)):
        if r.random() < q:
            e.set(p, r.choice(KIND['string'][p][:4]))
    if r.random() < 0.15:
        for i in range(r.randrange(1, 4)):
            e.c.append(rver(r, E('validValue', {'value': r.choice(['x', 'y', 'zz', '^p.Str'])}), 0.2))
    return e


def rdata(r, name, sibs=(), env=None):
    e = f('data', name)
    k = r.random()
    if k < 0.25:
        e.set('length', r.choice(['1', '2', '8']))
    elif k < 0.5:
        prefix(r, e, 'lengthPrefix', sibs)
    if r.random() < 0.04:
        e.set('length', '5')
    for p, q in (('defaultValue', 0.4), ('defaultValidValue', 0.1), ('validValue', 0.15)):
        if r.random() < q:
            e.set(p, r.choice(KIND['data'][p][:3] if p != 'defaultValue' else ['00', '0102', 'AbCd', '01 02', '^p.Da']))
    return e


def prefix(r, e, p, sibs):
    """a prefix by reference, as a child, or by the name of a sibling"""
    k = r.random()
    if k < 0.3:
        e.set(p, r.choice(['p.Len', 'p.I', 'p.Re', 'p.Len', 'p.Big']))
    elif k < 0.65 or not sibs:
        kind = r.choice(['int', 'int', 'int', 'int', 'int', 'bundle', 'enum'])
        c = rint(r, 'pfx', small=r.random() < 0.6) if kind == 'int' else base(kind, 'pfx')
        if kind == 'bundle' and r.random() < 0.7:
            c.set('semanticType', 'length')
        e.c.append(E(p, None, [c]))
    else:
        e.set(p, '$' + r.choice(list(sibs)))
    return e


def rlist(r, name, d=1, sibs=(), env=None):
    e = f('list', name)
    wrap = r.random() < 0.5
    if r.random() < 0.3:
        e.set('element', r.choice(['p.I', 'p.Bu', 'p.Str', 'p.Fl', 'p.Li', 'p.Op']))
    else:
        c = rfield(r, 'el', d - 1)
        e.c.append(E('element', None, [c]))
    k = r.random()
    if k < 0.25:
        e.set('count', r.choice(['1', '2', '3', '10']))
        if r.random() < 0.1:
            prefix(r, e, 'elemLengthPrefix', sibs)
    elif k < 0.5:
        prefix(r, e, 'countPrefix', sibs)
    elif k < 0.65:
        prefix(r, e, 'lengthPrefix', sibs)
    elif k < 0.75:
        prefix(r, e, 'termSuffix', sibs)
    if r.random() < 0.15:
        prefix(r, e, 'elemLengthPrefix', sibs)
    if r.random() < 0.2:
        e.set('elemFixedLength', r.choice(['true', 'false']))
    if r.random() < 0.05:
        prefix(r, e, r.choice(['countPrefix', 'lengthPrefix', 'termSuffix']), sibs)
    return e


def rbitfield(r, name, env=None):
    total = r.choice([8, 8, 16, 16, 24, 32, 64])
    e = f('bitfield', name)
    left, i, ms = total, 0, []
    while left > 0:
        n = min(left, r.randrange(1, 13) if r.random() < 0.9 else left)
        if r.random() < 0.02:
            n += 1
        k = r.random()
        nm = 'm%d' % i
        if k < 0.4:
            m = rint(r, nm, n, small=r.random() < 0.7)
        elif k < 0.6:
            m = renum(r, nm, n)
        elif k < 0.85:
            m = rset(r, nm, n)
        else:
            m = f('ref', nm, field=r.choice(['p.I', 'p.En', 'p.St', 'p.Re']), bitLength=min(n, 8))
            n = min(n, 8)
        ms.append(m)
        left -= n
        i += 1
    e.c = ms if r.random() < 0.6 else [E('members', None, ms)]
    if r.random() < 0.2:
        e.set('endian', r.choice(['big', 'little']))
    if r.random() < 0.15:
        e.set('validCond', '$m0 = 0')
    return e


def rbundle(r, name, d=2, kind='bundle', env=None):
    e = f(kind, name)
    ms, names = [], []
    for i in range(r.randrange(1, 5)):
        m = rfield(r, 'm%d' % i, d - 1, names if kind == 'bundle' else ())
        ms.append(rver(r, m, 0.08))
        names.append('m%d' % i)
    if kind == 'variant':
        if r.random() < 0.4:
            e.set('defaultMember', r.choice(names + ['0', '1', '-1', 'p.En.V1']))
        e.c = ms if r.random() < 0.6 else [E('members', None, ms)]
        return e
    if r.random() < 0.5:
        e.c = ms
        return e
    e.c = [E('members', None, ms)]
    if r.random() < 0.4:
        for i in range(r.randrange(1, 3)):
            e.c.append(E('alias', {'name': r.choice(['al', 'am', 'M0', 'm1', 'a%d' % i]), 'field': '$' + r.choice(names + ['m0.m0', 'm1.m1', 'nope'])}))
    if r.random() < 0.15:
        e.set('validCond', r.choice(['$m0 = 0', '$m0 != $m1', '$m1 = 3']))
    return e


def roptional(r, name, d=1, sibs=(), env=None):
    e = f('optional', name)
    if r.random() < 0.4:
        e.set('field', r.choice(['p.I', 'p.Bu', 'p.Str', 'p.St']))
    else:
        c = rfield(r, 'in', d - 1)
        e.c.append(c if r.random() < 0.5 else E('field', None, [c]))
    if r.random() < 0.5:
        e.set('defaultMode', r.choice(KIND['optional']['defaultMode'][:9]))
    if sibs and r.random() < 0.4:
        e.set('cond', rcond(r, sibs))
    for p in ('missingOnReadFail', 'missingOnInvalid'):
        if r.random() < 0.15:
            e.set(p, r.choice(['true', 'false']))
    return e


def rcond(r, sibs):
    s = r.choice(list(sibs))
    k = r.random()
    if k < 0.5:
        return '$%s %s %s' % (s, r.choice(['=', '!=', '<', '>', '<=', '>=']), r.choice(['0', '1', '5', '$' + r.choice(list(sibs))]))
    if k < 0.7:
        return r.choice(['$%s.B0', '!$%s.B0', '$%s.B1', '$?%s', '!$?%s']) % s
    if k < 0.85:
        return '$#%s %s %s' % (s, r.choice(['=', '>', '!=']), r.choice(['0', '3', 'x']))
    return '$%s.%s = %s' % (s, r.choice(['m0', 'm1', 'in']), r.choice(['0', '1']))


def rref(r, name, env=None):
    return f('ref', name, field=r.choice(['p.I', 'p.Neg', 'p.En', 'p.St', 'p.Fl', 'p.Str', 'p.Bu', 'p.Bf', 'p.Li', 'p.Re', 'p.ReBu', 'p.Op', 'p.Va', 'p.Len', 'p.Da', 'p.Zs']
                                             if r.random() < 0.95 else NUMREFS))


def rfield(r, name, d=2, sibs=(), kinds=None):
    ks = kinds or ['int', 'int', 'enum', 'set', 'float', 'string', 'data', 'ref', 'ref'] + (['bundle', 'bitfield', 'list', 'optional', 'variant'] if d > 0 else [])
    k = r.choice(ks)
    if k == 'int':
        e = rint(r, name)
    elif k == 'enum':
        e = renum(r, name)
    elif k == 'set':
        e = rset(r, name)
    elif k == 'float':
        e = rfloat(r, name)
    elif k == 'string':
        e = rstring(r, name, sibs)
    elif k == 'data':
        e = rdata(r, name, sibs)
    elif k == 'list':
        e = rlist(r, name, d, sibs)
    elif k == 'bitfield':
        e = rbitfield(r, name)
    elif k == 'bundle':
        e = rbundle(r, name, d)
    elif k == 'variant':
        e = rbundle(r, name, d, 'variant')
    elif k == 'optional':
        e = roptional(r, name, d, sibs)
    else:
        e = rref(r, name)
    if r.random() < 0.08:
        rprops(r, e, 0.06, 0.9, COMMON)
    return e
