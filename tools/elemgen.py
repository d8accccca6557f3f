"""Messages, interfaces, frames and layers: every property with every value worth trying, and random definitions."""
from fieldgen import *

PLATFORMS = ['+Lin', '-Lin', '+Lin,Win', '+Lin, Win ', '-Lin,Win,Mac', '-Win,Mac', '+Nope', '-Nope', 'Lin', '+', '-', '', '+Lin,', '+,Lin', '+Lin,Lin', ' +Lin',
             '+ Lin', '-Lin,Lin', '+lin', '*Lin', '+Lin,Win,Mac', '-Mac,Nope', '+Lin;Win', '-']
OVR = ['any', 'replace', 'extend', 'none', '', 'Replace', 'bad']
MCONDS = ['$m1 = 1', '$m1', '$m2.b0', '!$m2.b1', '$m1 > $m3.x', '$nope = 1', '%flags.fa', '%ver = 3', '%flags', '%tag = ab', '%#tag = 1', '$#m4 > 3', '', '$m1 = ', '%ver = $m1', '%nope = 2',
          '%ver != 3', '!%flags.fb', '$m4 = abc', '$m3.x <= -1', '$?m5', '!$?m5', '$m3.nope = 1', '% = 2', '$', '%ver < 3', '%flags.nope']
MSG = {
    'id': ['0', '1', '0x10', '77', '-1', 'x', '', 'p.Ids.M1', 'p.En.V300', 'p.Ids', 'p.Ids.Nope', 'p.I.S1', 'p.Neg.M', '18446744073709551615', '0xffffffffffffffff',
           '4294967296', '9223372036854775808', ' 5', '@s1.p.Ids.M2', 'p.ids.M2', 'p.Bf.me.B', '010'],
    'displayName': ['Nice', '', '^p.Str', '^nope'], 'description': ['Some', '^p.Str', ''],
    'sinceVersion': ['0', '1', '3', '5', '6', '-1', 'x'], 'deprecated': ['0', '1', '4', '5', '6', 'x'], 'removed': BOOLS,
    'copyFieldsFrom': MSGREFS, 'copyFieldsAliases': BOOLS, 'order': ['0', '1', '5', '-1', 'x', '', '4294967295', '0x3'],
    'platforms': PLATFORMS, 'customizable': BOOLS, 'sender': ['both', 'client', 'server', 'Client', 'any', ''],
    'validateMinLength': ['0', '1', '2', '8', '9', '12', 'x'], 'readOverride': OVR, 'writeOverride': OVR, 'refreshOverride': OVR, 'lengthOverride': OVR,
    'validOverride': OVR, 'nameOverride': OVR, 'copyCodeFrom': MSGREFS, 'constructAsReadCond': BOOLS, 'constructAsValidCond': BOOLS, 'failOnInvalid': BOOLS,
    'reuse': MSGREFS, 'reuseCode': BOOLS, 'reuseAliases': BOOLS, 'copyConstructFrom': MSGREFS, 'copyReadCondFrom': MSGREFS, 'copyValidCondFrom': MSGREFS,
    'construct': MCONDS, 'readCond': MCONDS, 'validCond': MCONDS, 'name': NAMES[:3] + BADNAMES, 'foo': ['bar', ''],
}
IFACE = {'description': ['x', '', '^p.Str'], 'copyFieldsFrom': IFREFS, 'copyFieldsAliases': BOOLS, 'reuse': IFREFS, 'reuseCode': BOOLS, 'reuseAliases': BOOLS,
         'name': NAMES[:3] + BADNAMES, 'foo': ['bar'], 'id': ['1']}


def mfields():
    return f('fields', None, f('int', 'm1', type='uint8'), f('set', 'm2', f('bit', 'b0', idx='0'), f('bit', 'b1', idx='1'), length='1'),
             f('bundle', 'm3', f('int', 'x', type='int8'), f('int', 'y', type='uint16')), f('string', 'm4'), f('optional', 'm5', f('int', 'in', type='uint8')))


def platforms(kinds=('Lin', 'Win', 'Mac')):
    return E('platforms', None, [E('platform', {'name': x}) for x in kinds])


def doc(*kids, plat=False, **a):
    """a schema with what its content refers to, with the interface IA when conditions need one"""
    x = ''.join(k.xml() for k in kids)
    n = needs(x)
    pre = []
    if '%' in x:
        n.add('IA')
    if n or re.search(r'[\"^@.$>]p\"', x):
        pre = [prelude(n | {'I'})]
    return schema(([platforms()] if plat or 'platforms=' in x or '<platforms' in x else []) + pre + list(kids), **a)


def bmsg(name='t', *kids, **a):
    d = {'id': '5'}
    d.update(a)
    return f('message', name, *kids, **d)


def msg_singles():
    for p, vs in MSG.items():
        for v in vs:
            for child in (False, True):
                for src in (False, True):      # own fields, or those of another message
                    if src and p in ('copyFieldsFrom', 'name', 'foo', 'sinceVersion', 'order', 'description'):
                        continue
                    if child and (src or p in ('construct', 'readCond', 'validCond') and not v):
                        continue
                    m = bmsg('t', mfields()) if not src else bmsg('t', **{'reuse' if p.startswith('re') or p[:4] == 'copy' else 'copyFieldsFrom': 'p.MA'})
                    if p in ('copyFieldsFrom', 'reuse') and not src:
                        m.c = []
                    apply(m, p, v, child)
                    yield m


def iface_singles():
    for p, vs in IFACE.items():
        for v in vs:
            for child in (False, True):
                for own in (False, True):
                    i = f('interface', 't', *([f('fields', None, f('int', 'a', type='uint8'), f('set', 'b', length='1'))] if own else []))
                    apply(i, p, v, child)
                    yield i


LAYER = {
    'custom': {'idReplacement': BOOLS, 'semanticLayerType': ['custom', 'sync', 'size', 'id', 'value', 'payload', 'checksum', '', 'bad', 'Id'], 'checksumFrom': ['a', 'size', 'nope', ''],
               'checksumUntil': ['data', 'nope', 'size']},
    'sync': {'seekField': BOOLS, 'from': ['a', 'size', 'nope', 'data', ''], 'verifyBeforeRead': BOOLS, 'escField': ['p.I', 'p.Nope']},
    'size': {}, 'id': {},
    'value': {'interfaces': ['p.IA', 'p.IA,p.IB', 'p.IB', 'p.Nope', '', 'p.IA, p.IA', 'p.IA,', 'p.MA'], 'interfaceFieldName': ['ver', 'flags', 'nope', '', 'tag'], 'pseudo': BOOLS},
    'payload': {},
    'checksum': {'alg': ['sum', 'crc-ccitt', 'crc_ccitt', 'CRC-16', 'crc-32', 'xor', 'custom', 'bad', ''], 'algName': ['MyAlg', '1x', ''], 'from': ['a', 'size', 'nope', 'data', ''],
                 'until': ['data', 'nope', 'size', ''], 'verifyBeforeRead': BOOLS},
}
LCOMMON = {'displayName': ['L', '', '^p.Str'], 'description': ['d', ''], 'name': ['l', 'data', 'b c', ''], 'field': ['p.I', 'p.Nope', 'p.Bu', 'p', ''], 'foo': ['x']}


def layer(kind, name, **a):
    e = f(kind, name, **a)
    if kind != 'payload' and 'field' not in a:
        e.c.append(f('int', 'F', type='uint16') if kind != 'id' else f('enum', 'F', f('validValue', 'M1', val='1'), type='uint8', semanticType='messageId'))
    if kind == 'value' and 'interfaceFieldName' not in a:
        e.set('interfaceFieldName', 'ver')
    if kind == 'checksum' and 'alg' not in a:
        e.set('alg', 'sum')
    return e


def frame_singles():
    for k in LAYER:
        for p, vs in list(LAYER[k].items()) + list(LCOMMON.items()):
            for v in vs:
                for child in (False, True):
                    if child and p == 'field':
                        continue
                    for where in ('before', 'after'):
                        l = layer(k, 'l')
                        if p == 'field' and where == 'after':
                            l.c = []
                        apply(l, p, v, child)
                        if child and l.c and l.c[0].t in ('int', 'enum'):
                            l.c[0] = E('field', None, [l.c[0]])
                        if k == 'checksum' and p in ('alg', 'algName', 'verifyBeforeRead', 'name', 'foo', 'description', 'displayName', 'field'):
                            l.set('from' if where == 'after' else 'until', 'a' if where == 'after' else 'data')
                            if p == 'algName':
                                l.set('alg', 'custom')
                        if k == 'custom' and p.startswith('checksum'):
                            l.set('semanticLayerType', 'checksum')
                        if k == 'sync' and p in ('from', 'escField') and not child:
                            l.set('seekField' if where == 'after' and p == 'escField' else 'verifyBeforeRead', 'true')
                        a, d = layer('size', 'size' if k != 'size' else 'a'), layer('payload', 'data')
                        pre = [a] if k == 'size' else [layer('custom', 'a'), a]
                        mid = [] if k == 'payload' else [d]
                        ls = pre + [l] + mid if where == 'before' or k == 'payload' else pre + mid + [l]
                        yield f('frame', 't', E('layers', None, ls))


def frame(name, ls):
    return f('frame', name, E('layers', None, ls))


def frame_doc(fr, *kids, **a):
    x = fr.xml()
    n = needs(x) | ({'IA'} if '<value' in x else set())
    return schema(([prelude(n | {'I'})] if n or '"p"' in x else []) + list(kids) + [E('frames', None, [fr])], **a)


def rlayer(r, kind, name, names):
    a = {}
    nm = lambda: r.choice(names + ['nope']) if r.random() < 0.9 else ''
    if r.random() < 0.3 and kind != 'payload':
        a['field'] = r.choice(['p.I', 'p.Len', 'p.En', 'p.Re', 'p.St'])
    l = layer(kind, name, **a)
    if kind == 'checksum':
        l.set('alg', r.choice(['sum', 'crc-16', 'crc_32', 'xor', 'custom']))
        if l.get('alg') == 'custom' and r.random() < 0.95:
            l.set('algName', 'A1')
        if r.random() < 0.8:
            l.set('from', nm())
        if r.random() < 0.25:
            l.set('until', nm())
        if r.random() < 0.3:
            l.set('verifyBeforeRead', r.choice(['true', 'false']))
    elif kind == 'sync':
        if r.random() < 0.5:
            l.set('seekField', r.choice(['true', 'true', 'false']))
            if r.random() < 0.4:
                if l.c and l.c[0].t in FIELDKINDS:
                    l.c = [E('field', None, l.c)]
                l.c.append(E('escField', None, [f('int', 'esc', type='uint8')]))
        elif r.random() < 0.4:
            l.set('verifyBeforeRead', r.choice(['true', 'false']))
        if r.random() < 0.4:
            l.set('from', nm())
    elif kind == 'value':
        if r.random() < 0.5:
            l.set('interfaces', r.choice(['p.IA', 'p.IB', 'p.IA,p.IA', 'p.IA, p.IB']))
        l.set('interfaceFieldName', r.choice(['ver', 'ver', 'flags', 'tag', 'nope']))
        if r.random() < 0.3:
            l.set('pseudo', r.choice(['true', 'false']))
    elif kind == 'custom':
        if r.random() < 0.3:
            l.set('idReplacement', r.choice(['true', 'false']))
        if r.random() < 0.5:
            l.set('semanticLayerType', r.choice(list(LAYER) + ['checksum', 'checksum']))
        if r.random() < 0.5:
            l.set('checksumFrom', nm())
        if r.random() < 0.3:
            l.set('checksumUntil', nm())
    return l


FIELDKINDS = set(KIND)


def rframe(r, name):
    n = r.randrange(1, 6)
    kinds = [r.choice(['sync', 'size', 'id', 'value', 'checksum', 'checksum', 'custom', 'sync']) for _ in range(n)]
    if r.random() < 0.93:
        kinds.insert(r.randrange(n + 1), 'payload')
    if r.random() < 0.6:      # id and size once, before the payload
        seen = set()
        kinds = [k for k in kinds if k not in ('id', 'size') or not (k in seen or seen.add(k))]
        if 'payload' in kinds:
            pi = kinds.index('payload')
            kinds = [k for i, k in enumerate(kinds) if i < pi or k not in ('id', 'size', 'value')]
    names = ['l%d' % i for i in range(len(kinds))]
    if r.random() < 0.05 and len(names) > 1:
        names[-1] = names[0] if r.random() < 0.5 else names[0].upper()
    return frame(name, [rlayer(r, k, nm, names) for k, nm in zip(kinds, names)])


def ralias(r, names):
    return E('alias', {'name': r.choice(['al', 'am', 'an', 'M0', 'm1', 'Al']), 'field': r.choice(['$%s' % r.choice(names + ['m0', 'nope']), '$%s.%s' % (r.choice(names), r.choice(['m0', 'm1', 'x', 'in'])), 'm0'])})


def rmembers(r, prefix_='m', d=1, n=None):
    ms, names = [], []
    for i in range(n if n is not None else r.randrange(0, 5)):
        nm = '%s%d' % (prefix_, i)
        ms.append(rver(r, rfield(r, nm, d, names), 0.12))
        names.append(nm)
    return ms, names


def rmsg(r, name, mid=None, rich=1.0):
    ms, names = rmembers(r)
    m = bmsg(name, id=mid if mid is not None else r.choice(['1', '2', '3', '0x10', 'p.Ids.M1', '65536', '0']))
    q = lambda p: r.random() < p * rich
    if r.random() < 0.3:
        k = r.choice(['copyFieldsFrom', 'copyFieldsFrom', 'reuse'])
        m.set(k, r.choice(['p.MA', 'p.MA', 'p.MB', 'p.Bu']) if k[0] == 'c' else r.choice(['p.MA', 'p.MB']))
        names = ['a', 'b', 'd', 'm1', 'e', 'since2'] + names
        if q(0.4):
            m.set('copyFieldsAliases', r.choice(['true', 'false']))
        if k == 'reuse':
            for p in ('reuseCode', 'reuseAliases'):
                if q(0.3):
                    m.set(p, r.choice(['true', 'false']))
        if q(0.35):
            m.c.append(E('replace', None, [rfield(r, x, 1, ()) for x in r.sample(['a', 'b', 'd', 'm1', 'nope', 'e'], r.randrange(1, 3))]))
    others = []
    if names and r.random() < 0.35:
        for _ in range(r.randrange(1, 3)):
            others.append(ralias(r, names))
    conds = []
    if q(0.4):
        for p in r.sample(['construct', 'readCond', 'validCond'], r.randrange(1, 3)):
            c = rcondtree(r, names, p) if r.random() < 0.4 else E(p, {'value': rmcond(r, names)})
            if c.get('value') is not None and r.random() < 0.5:
                m.set(p, c.get('value'))
            else:
                conds.append(c)
    if ms:
        if others or conds or m.c or r.random() < 0.6:
            m.c.append(E('fields', None, ms))
        else:
            m.c += ms
    m.c += others + conds
    if q(0.2):
        m.set(r.choice(['constructAsReadCond', 'constructAsValidCond']), r.choice(['true', 'false']))
    rver(r, m, 0.25 * rich)
    for p, pr in (('order', 0.3), ('platforms', 0.25), ('sender', 0.3), ('customizable', 0.15), ('failOnInvalid', 0.15), ('validateMinLength', 0.05), ('readOverride', 0.1),
                  ('writeOverride', 0.1), ('refreshOverride', 0.1), ('lengthOverride', 0.1), ('validOverride', 0.1), ('nameOverride', 0.1), ('copyCodeFrom', 0.08),
                  ('copyConstructFrom', 0.05), ('copyReadCondFrom', 0.05), ('copyValidCondFrom', 0.08), ('displayName', 0.2), ('description', 0.2)):
        if q(pr):
            vs = MSG[p]
            if p in ('copyConstructFrom', 'copyReadCondFrom'):
                vs = ['p.MA', 'p.MA', 'p.MB']
            m.set(p, r.choice(vs[:3] if r.random() < 0.85 else vs))
    return m


def rmcond(r, names):
    if r.random() < 0.35 or not names:
        return r.choice(['%flags.fa', '!%flags.fb', '%ver = 3', '%ver != 0', '%ver > 3', '%flags', '%tag = ab', '%#tag = 2', '%nope', '%flags.nope'])
    return rcond(r, names)


def rcondtree(r, names, tag, d=2, top=True):
    def leaf():
        return E(tag if tag != 'cond' else 'cond', {'value': rmcond(r, names) if tag != 'cond' else rcond(r, names)})
    def tree(d):
        n = r.randrange(2, 4) if r.random() < 0.95 else r.randrange(0, 2)
        return E(r.choice(['and', 'and', 'or']), None, [leaf() if d == 0 or r.random() < 0.6 else tree(d - 1) for _ in range(n)])
    return E(tag, None, [tree(d)])


def riface(r, name):
    ms, names = rmembers(r, 'm', 1)
    i = f('interface', name)
    if r.random() < 0.35:
        i.set(r.choice(['copyFieldsFrom', 'reuse']), r.choice(['p.IA', 'p.IB', 'p.Bu']))
        names = ['flags', 'ver', 'm1'] + names
        if r.random() < 0.4:
            i.set('copyFieldsAliases', r.choice(['true', 'false']))
        for p in ('reuseCode', 'reuseAliases'):
            if r.random() < 0.3:
                i.set(p, r.choice(['true', 'false']))
    if ms:
        i.c.append(E('fields', None, ms))
    if names and r.random() < 0.4:
        for _ in range(r.randrange(1, 3)):
            i.c.append(ralias(r, names))
    if r.random() < 0.2:
        i.set('description', r.choice(['x', '^p.Str']))
    return i
