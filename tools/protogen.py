"""Random protocols which (nearly always) are valid: the material of the checks of the generators."""
import random
from pools import E, f, fields, ns

INTS = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8}
WORDS = ['alpha', 'Beta', 'gamma', 'Delta', 'eps', 'Zeta', 'eta', 'Theta', 'iota', 'Kappa', 'lam', 'Mu', 'nu', 'Xi', 'omi', 'Pi', 'rho', 'Sigma', 'tau', 'Phi']


FIELDS = {'int', 'enum', 'set', 'float', 'string', 'data', 'list', 'bitfield', 'bundle', 'variant', 'optional', 'ref'}


def inside(e):
    """the fields within an element"""
    return [y for x in e.c for y in (x.c if x.t in ('fields', 'members', 'field') else [x]) if y.t in FIELDS]


class Proto:
    """one protocol: self.docs are schema elements"""
    def __init__(self, r, **k):
        self.r, self.k, self.n, self.topv = r, k, 0, 1 << 30
        self.globals = []       # (path, kind, element, since)
        self.version = k.get('version', r.choice([0, 3, 5, 5, 5, 5]))
        self.docs = []
        self.ifs = []           # (name, element) of the fields of interfaces which conditions may use

    def name(self, pre=''):
        self.n += 1
        r = self.r
        w = pre + r.choice(WORDS) + str(self.n)
        return w

    # ------------------------------------------------------------ values

    def vers(self, a, parent=0, rem=False, p=0.35):
        """version attributes for something inside an element existing since parent"""
        r, v = self.r, min(self.topv - 1, self.version)
        if v > parent and r.random() < p:
            s = parent if r.random() < .25 else r.randrange(parent, v + 1)
            if s and (s > parent or r.random() < .5):
                a['sinceVersion'] = str(s)
            else:
                s = 0
            if s < v and r.random() < 0.4 + .3 * (s == parent):
                a['deprecated'] = str(r.randrange(s + 1, v + 1))
                if rem and r.random() < 0.6:
                    a['removed'] = 'true'
            return s
        return parent

    def int_(self, name, since=0, bits=None, plain=False):
        r, a, kids = self.r, {}, []
        t = r.choice(list(INTS) + ['uint8', 'uint16', 'int16'] + ([] if bits or plain else ['intvar', 'uintvar']))
        if bits:
            t = r.choice([x for x in INTS if INTS[x] * 8 >= bits])
        a['type'] = t
        ln = INTS.get(t, 8)
        if (bits or t[0] == 'i') and r.random() < .15:
            a['signExt'] = r.choice(['true', 'false', 'false'])
        if bits:
            a['bitLength'] = str(bits)
        elif t.endswith('var'):
            if r.random() < 0.6:
                ln = r.randrange(1, 9)
                a['length'] = str(ln)
        elif ln > 1 and r.random() < 0.3:
            ln = r.randrange(1, ln + 1)
            a['length'] = str(ln)
        uns = t[0] == 'u'
        w = bits or min(ln * (7 if t.endswith('var') else 8), 64)
        lo, hi = (0, (1 << w) - 1) if uns else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not bits and r.random() < 0.25:
            a['endian'] = r.choice(['big', 'little'])
        soff = 0
        if not bits and not t.endswith('var') and r.random() < 0.15 and ln < 8:
            soff = r.choice([1, 5, -3, 10, -10])
            a['serOffset'] = str(soff)
        clamp = lambda x: max(lo + (abs(soff) if soff else 0), min(hi - (abs(soff) if soff else 0), x))
        some = lambda: clamp(r.choice([0, 1, 2, 7, 10, 100, 127, 128, 200, 255, 256, 1000, 40000, 70000, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 33) + 5, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, -1, -2, -100, -129, -(1 << 31), -(1 << 33), -(1 << 63), lo, hi, hi - 1]))
        if r.random() < 0.4:
            a['defaultValue'] = self.num(some())
        if plain:
            return f('int', name, **a)
        if r.random() < 0.15 and not bits:
            a['scaling'] = '%d/%d' % (r.choice([1, 2, 3, 10]), r.choice([1, 2, 10, 100, 8]))
        if r.random() < 0.15:
            a['units'] = r.choice(['mm', 'sec', 'ms', 'km/h', 'deg', 'V', 'hz', 'b', 'kb', 'rad', 'us', 'm', 'cm'])
        if r.random() < 0.1:
            a['displayOffset'] = str(r.choice([1, -3, 100]))
        if r.random() < 0.1:
            a['failOnInvalid'] = 'true'
        if r.random() < 0.05:
            a['fixedValue'] = 'true'
        if r.random() < 0.05:
            a['displayDecimals'] = '3'
        vv = since
        if r.random() < 0.3:
            if r.random() < 0.4:
                a['validCheckVersion'] = 'true'
            if r.random() < 0.2:
                a['nonUniqueSpecialsAllowed'] = 'true'
            for _ in range(r.randrange(1, 5)):
                x, y = sorted((some(), some()))
                if r.random() < 0.5:
                    y = min(x + r.choice([0, 1, 2, 9]), hi - abs(soff))
                b = {}
                self.vers(b, since)
                if r.random() < 0.5:
                    kids.append(E('validRange', {'value': '[%s, %s]' % (self.num(x), self.num(y)), **b}))
                else:
                    kids.append(E('validValue', {'value': self.num(x), **b}))
        if r.random() < 0.3:
            used = set()
            for i in range(r.randrange(1, 5)):
                x = some()
                if x in used:
                    continue
                used.add(x)
                b = {}
                self.vers(b, since)
                kids.append(E('special', {'name': 'S%d' % i if r.random() < 0.7 else 'sp%d' % i, 'val': self.num(x), **b}))
        if r.random() < 0.1 and ln > 1 and not t.endswith('var') and not bits:
            a['availableLengthLimit'] = 'true'
        return f('int', name, *kids, **a)

    def num(self, x):
        return ('0x%x' % x) if x >= 0 and self.r.random() < 0.3 else str(x)

    def enum_(self, name, since=0, bits=None, ids=None):
        r, a = self.r, {}
        t = r.choice(list(INTS))
        if bits:
            t = r.choice([x for x in INTS if INTS[x] * 8 >= bits])
            a['bitLength'] = str(bits)
        elif r.random() < 0.15:
            t = r.choice(['intvar', 'uintvar'])
        a['type'] = t
        ln = INTS.get(t, 8)
        if not bits and r.random() < 0.2:
            ln = r.randrange(1, ln + 1)
            a['length'] = str(ln)
        w = bits or min(64, ln * (7 if t.endswith('var') else 8))
        lo, hi = (0, (1 << w) - 1) if t[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not bits and r.random() < 0.2:
            a['endian'] = r.choice(['big', 'little'])
        kids, used = [], []
        if ids is not None:
            a = {'type': r.choice(['uint16', 'uint32', 'uint8']), 'semanticType': 'messageId'}
            for n, v in ids:
                kids.append(E('validValue', {'name': n, 'val': str(v)}))
            return f('enum', name, *kids, **a)
        if r.random() < 0.15:
            a['nonUniqueAllowed'] = 'true'
        many = r.random() < 0.12
        base = r.choice([0, 1, 2, 10, 100, lo, hi - 3, -2, 1 << 40])
        for i in range(r.randrange(6, 26) if many else r.randrange(1, 6)):
            base += r.choice([1, 1, 1, 2, 5, 50])
            x = max(lo, min(hi, base)) if not (a.get('nonUniqueAllowed') and used and r.random() < 0.3) else r.choice(used)
            if x in used and 'nonUniqueAllowed' not in a:
                continue
            used.append(x)
            b = {}
            self.vers(b, since)
            kids.append(E('validValue', {'name': 'V%d' % i if r.random() < 0.8 else 'v%d' % i, 'val': self.num(x), **b}))
        if r.random() < 0.3:
            r.shuffle(kids)
        if r.random() < 0.35:
            a['defaultValue'] = r.choice(kids).get('name') if r.random() < 0.5 else str(r.choice(used))
        if r.random() < 0.2:
            a['validCheckVersion'] = 'true'
        if r.random() < 0.1:
            a['failOnInvalid'] = 'true'
        if r.random() < 0.2 and t[0] == 'u':
            a['hexAssign'] = 'true'
        if r.random() < 0.1 and ln > 1 and not t.endswith('var') and not bits:
            a['availableLengthLimit'] = 'true'
        return f('enum', name, *kids, **a)

    def set_(self, name, since=0, bits=None):
        r, a = self.r, {}
        if bits:
            a['bitLength'] = str(bits)
            w = bits
        elif r.random() < 0.7:
            ln = r.randrange(1, 9)
            a['length'] = str(ln)
            w = ln * 8
        else:
            t = r.choice([x for x in INTS if x[0] == 'u'])
            a['type'] = t
            w = INTS[t] * 8
        if not bits and r.random() < 0.2:
            a['endian'] = r.choice(['big', 'little'])
        for k in ('defaultValue', 'reservedValue'):
            if r.random() < 0.3:
                a[k] = r.choice(['true', 'false', '1'])
        if r.random() < 0.4:
            a['validCheckVersion'] = 'true'
        if r.random() < 0.15:
            a['nonUniqueAllowed'] = 'true'
        kids = []
        idxs = r.sample(range(w), min(w, r.randrange(1, 6)))
        if r.random() < 0.6:
            idxs.sort()
        for i, x in enumerate(idxs):
            if a.get('nonUniqueAllowed') and i and r.random() < 0.2:
                kids.append(E('bit', {'name': 'a%d' % i, 'idx': str(idxs[0])}))
            b = {}
            self.vers(b, since)
            if r.random() < 0.25:
                b['defaultValue'] = r.choice(['true', 'false'])
            if r.random() < 0.15:
                b = {'reserved': 'true'}
                if r.random() < 0.5:
                    b['reservedValue'] = r.choice(['true', 'false'])
            kids.append(E('bit', {'name': ('b%d' if r.random() < 0.7 else 'B%d') % i, 'idx': str(x), **b}))
        if r.random() < 0.1:
            a['failOnInvalid'] = 'true'
        return f('set', name, *kids, **a)

    def float_(self, name, since=0):
        r = self.r
        a = {'type': r.choice(['float', 'double'])}
        if r.random() < 0.25:
            a['endian'] = r.choice(['big', 'little'])
        pool = ['0', '1.5', '-2.25', '0.5', '100', 'inf', '-inf', 'nan', '1000000', '-0.125', '3.0']
        if r.random() < 0.4:
            a['defaultValue'] = r.choice(pool)
        if r.random() < 0.15:
            a['units'] = r.choice(['mm', 'sec', 'deg', 'V'])
        if r.random() < 0.2:
            a['validCheckVersion'] = 'true'
        if r.random() < 0.1:
            a['failOnInvalid'] = 'true'
        kids = []
        if r.random() < 0.4:
            for _ in range(r.randrange(1, 4)):
                x = r.choice([('validRange', '[0, 1.5]'), ('validRange', '[-10.5, 2]'), ('validValue', 'nan'), ('validValue', 'inf'), ('validRange', '[3, 100]'), ('validValue', '-2.5'), ('validValue', '-inf')])
                b = {}
                self.vers(b, since)
                kids.append(E(x[0], {'value': x[1], **b}))
        if r.random() < 0.3:
            used = set()
            for i in range(r.randrange(1, 4)):
                x = r.choice(pool)
                if x in used:
                    continue
                used.add(x)
                b = {}
                self.vers(b, since)
                kids.append(E('special', {'name': 'S%d' % i, 'val': x, **b}))
        return f('float', name, *kids, **a)

    def uint(self, name):
        r = self.r
        return f('int', name, type=r.choice(['uint8', 'uint16', 'uint32', 'uint8']), **({'endian': 'little'} if r.random() < 0.2 else {}))

    def pick(self, kinds, since=None):
        c = [g for g in self.globals if g[1] in kinds and (since is None or g[3] <= since)]
        return self.r.choice(c) if c else None

    def prefix(self, tag):
        """a length or count prefix: its own field or a reference to a global one"""
        g = self.pick(('plain',), 0)
        if g and self.r.random() < 0.4:
            return tag, g[0], None
        return tag, None, E(tag, None, [self.uint({'lengthPrefix': 'Lp', 'countPrefix': 'Cp', 'elemLengthPrefix': 'Ep'}[tag])])

    def text_(self, kind, name, since=0):
        r, a, kids = self.r, {}, []
        c = r.random()
        if c < 0.3:
            tag, ref, e = self.prefix('lengthPrefix')
            if ref:
                a[tag] = ref
            else:
                kids.append(e)
        elif c < 0.5:
            a['length'] = str(r.randrange(8, 20))
        elif c < 0.75 and kind == 'string':
            a['zeroTermSuffix'] = 'true'
        if r.random() < 0.35:
            a['defaultValue'] = r.choice(['hello', 'x', 'a b']) if kind == 'string' else r.choice(['00', '01 02 03', 'abcdef'])
        return f(kind, name, *kids, **a)

    def list_(self, name, depth, since=0):
        r, a, kids = self.r, {}, []
        g = self.pick(('plain', 'int', 'enum', 'set', 'bundle', 'float', 'bitfield'), since)
        if g and r.random() < 0.5:
            a['element'] = g[0]
        else:
            kids.append(E('element', None, [self.field('El', depth + 1, since, r.choice(['int', 'enum', 'bundle', 'float', 'set']))]))
        c = r.random()
        fixed = r.random() < 0.2
        if c < 0.3:
            tag, ref, e = self.prefix('countPrefix')
            a.update({tag: ref} if ref else {})
            kids += [e] if e else []
        elif c < 0.5:
            tag, ref, e = self.prefix('lengthPrefix')
            a.update({tag: ref} if ref else {})
            kids += [e] if e else []
        elif c < 0.7:
            a['count'] = str(r.randrange(1, 9))
        elif c < 0.8:
            kids.append(E('termSuffix', None, [f('int', 'Ts', E('validValue', {'value': '255'}), type='uint8', defaultValue='255', failOnInvalid='true')]))
            return f('list', name, *kids, **a)
        if r.random() < 0.25:
            tag, ref, e = self.prefix('elemLengthPrefix')
            a.update({tag: ref} if ref else {})
            kids += [e] if e else []
            if r.random() < 0.3 and 'element' in a and g[1] in ('plain', 'int', 'enum', 'set', 'float'):
                a['elemFixedLength'] = 'true'
        return f('list', name, *kids, **a)

    def bitfield_(self, name, since=0):
        r, a = self.r, {}
        total = r.choice([8, 8, 16, 24, 32])
        ms, left, i = [], total, 0
        while left:
            b = r.randrange(1, min(left, 12) + 1)
            if left - b and len(ms) >= 5:
                b = left
            b = min(b, 40)
            k = r.choice(['int', 'enum', 'set'])
            ms.append({'int': self.int_, 'enum': self.enum_, 'set': self.set_}[k](('m%d' if r.random() < 0.7 else 'M%d') % i, since, b))
            left -= b
            i += 1
        if r.random() < 0.2:
            a['endian'] = r.choice(['big', 'little'])
        e = f('bitfield', name, *ms, **a)
        if self.k.get('conds') and r.random() < self.k['conds']:
            self.cond(e, 'validCond', self.targets(ms), .5)
        return e

    def members(self, depth, since, n=None):
        r, ms = self.r, []
        for i in range(n or r.randrange(1, 4)):
            nm = ('m%d' if r.random() < 0.7 else 'M%d') % i
            ms.append(self.member(nm, depth, since) if i else self.field(nm, depth + 1, since))
        return ms

    def member(self, name, depth, since):
        """a field inside another: its own definition or a reference"""
        r = self.r
        b = {}
        s = self.vers(b, since, rem=True)
        old, self.topv = self.topv, int(b.get('deprecated', self.topv))
        g = self.pick(('plain', 'int', 'enum', 'set', 'float', 'string', 'data', 'list', 'bundle', 'bitfield', 'variant', 'optional'), s)
        if g and r.random() < 0.45:
            e = f('ref', name, field=g[0])
            if g[2].get('failOnInvalid') and r.random() < 0.95:
                e.set('failOnInvalid', 'true')
        else:
            e = self.field(name, depth + 1, s)
        self.topv = old
        for k, v in b.items():
            e.set(k, v)
        return e

    def bundle_(self, name, depth, since=0):
        r = self.r
        ms = self.members(depth, since)
        if r.random() < 0.12:
            ms += [self.uint('len'), f('data', 'dat', lengthPrefix='$len')]
        elif r.random() < 0.12:
            ms += [self.uint('cnt'), f('list', 'lst', E('element', None, [self.uint('El')]), countPrefix='$cnt')]
        elif r.random() < 0.12:
            ms = [f('int', 'sz', type='uint8', semanticType='length')] + ms
        elif r.random() < 0.15:
            ms += [f('set', 'fl', E('bit', {'name': 'has', 'idx': '0'}), length='1'), f('optional', 'op', self.uint('in'), cond='$fl.has', defaultMode='missing')]
        e = f('bundle', name, *ms)
        if self.k.get('conds'):
            self.condize(ms, False)
            if r.random() < self.k['conds']:
                self.cond(e, 'validCond', self.targets(ms), .5)
        return e

    def variant_(self, name, depth, since=0):
        r = self.r
        ms = []
        for i in range(r.randrange(1, 4)):
            key = f('int', 'key', type='uint8', defaultValue=str(i), validValue=str(i), failOnInvalid='true', fixedValue='true')
            ms.append(f('bundle', 'p%d' % i, key, *self.members(depth + 1, since, r.randrange(0, 2) or None)))
        a = {}
        if self.k.get('many') and r.random() < self.k['many']:
            # more than the macros of the library can cope with
            for i in range(len(ms), 121 + r.randrange(3)):
                ms.append(f('int', 'p%d' % i, type='uint8') if i % 40 else f('bundle', 'p%d' % i, *self.members(depth + 1, since, 1)))
        if r.random() < 0.3:
            a['defaultMember'] = r.choice([str(r.randrange(len(ms))), 'p0'])
        return f('variant', name, *ms, **a)

    def optional_(self, name, depth, since=0):
        r, a = self.r, {}
        if r.random() < 0.7:
            a['defaultMode'] = r.choice(['exists', 'missing', 'tentative'])
        for k in ('missingOnReadFail', 'missingOnInvalid'):
            if r.random() < 0.15:
                a[k] = 'true'
        g = self.pick(('plain', 'int', 'enum', 'set', 'float', 'string', 'bundle'), since)
        if g and r.random() < 0.4:
            return f('optional', name, field=g[0], **a)
        return f('optional', name, self.field('in', depth + 1, since, r.choice(['int', 'enum', 'set', 'string', 'bundle'])), **a)

    def field(self, name, depth=0, since=0, kind=None):
        r = self.r
        kinds = self.k.get('kinds') or ['int', 'int', 'enum', 'set', 'float', 'string', 'data', 'list', 'bitfield', 'bundle', 'variant', 'optional']
        k = kind or r.choice(kinds)
        if depth >= 2 and k in ('list', 'bundle', 'variant', 'optional'):
            k = r.choice(['int', 'enum', 'set', 'string'])
        if k in ('string', 'data'):
            return self.text_(k, name, since)
        if k in ('list', 'bundle', 'variant', 'optional'):
            return getattr(self, k + '_')(name, depth, since)
        return getattr(self, k + '_')(name, since)

    # ------------------------------------------------------------ elements

    def ids(self, n):
        r = self.r
        c = r.random()
        if c < 0.5:
            xs = list(range(1, n + 1))
        elif c < 0.9:
            xs = r.sample([0, 1, 2, 3, 5, 9, 10, 11, 12, 99, 100, 128, 200, 255, 256, 300, 1000, 65535, 65536], n)
        else:
            xs = r.sample([1, 2, 3, 5, 100, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) + 1, (1 << 53) + 1, (1 << 63) - 1], n)
        r.shuffle(xs)
        return xs

    def schema(self, name, **k):
        r = self.r
        body, plat = [], []
        a = {'name': name, 'version': str(self.version)}
        if r.random() < 0.8:
            a['endian'] = r.choice(['big', 'little'])
        if r.random() < 0.4:
            a['id'] = str(r.randrange(100))
        if r.random() < 0.3:
            a['dslVersion'] = r.choice(['6', '7', '8', '8'])
        if r.random() < k.get('pplat', 0.35):
            plat = r.sample(['plat1', 'Server', 'mobile', 'Desk'], r.randrange(1, 4))
        plats = [E('platform', {'name': p}) for p in plat]
        spaces = [()]
        for _ in range(k.get('spaces', r.choice([0, 0, 1, 2, 3]))):
            b = r.choice(spaces)
            p = (b if len(b) < 2 and r.random() < 0.6 else ()) + (r.choice(['one', 'Two', 'three']),)
            if p not in spaces:
                spaces.append(p)
        ref = lambda sp, n: '.'.join(sp + (n,))
        items = []      # (namespace, group, element)
        msgs = k.get('msgs', r.randrange(0, 6))
        idname = None
        nums = self.ids(msgs)
        names = [self.name() for _ in range(msgs)]
        if msgs and r.random() < 0.5:
            sp = r.choice(spaces)
            ev = [('%s' % (n[0].upper() + n[1:]), v) for n, v in zip(names, nums)]
            e = self.enum_('MsgId', ids=ev)
            if max(nums) > 255 or e.get('type') == 'uint8' and max(nums) > 255:
                e.set('type', 'uint64' if max(nums) >= 1 << 32 else 'uint32')
            idname = ref(sp, 'MsgId')
            items.append((sp, 'fields', e))
        verf = None
        self.ifs = []
        if r.random() < k.get('pver', 0.5):
            sp = r.choice(spaces)
            verf = ref(sp, 'Ver')
            items.append((sp, 'fields', f('int', 'Ver', type='uint16', semanticType='version')))
        for i in range(k.get('fields', r.randrange(0, 7))):
            sp = r.choice(spaces)
            n = self.name('f')
            if r.random() < 0.25:
                e, kind = self.uint(n), 'plain'
            else:
                e = self.field(n)
                kind = e.t
            if r.random() < 0.06:
                e.set('forceGen', 'true')
            items.append((sp, 'fields', e))
            self.globals.append((ref(sp, n), kind, e, 0))
        ifaces = []
        for i in range(k.get('ifaces', r.choice([0, 1, 1, 1, 2]))):
            sp = r.choice(spaces)
            n = self.name('If')
            fs = []
            hasver = verf and (not i or r.random() < 0.6)
            if hasver:
                fs.append(f('ref', 'ver', field=verf))
            if r.random() < 0.3:
                fs.append(self.int_('flags', plain=True))
            if k.get('conds'):
                for x in range(r.randrange(1, 4)):
                    nm = ('t%d_%d' if r.random() < .7 else 'T%d_%d') % (i, x)
                    fs.append(getattr(self, r.choice(['set_', 'set_', 'enum_', 'int_', 'bitfield_']))(nm))
                    self.ifs.append((nm, fs[-1]))
            items.append((sp, 'interfaces', f('interface', n or None, *fs)))
            ifaces.append((ref(sp, n), hasver))
        for n, v in zip(names, nums):
            sp = r.choice(spaces)
            self.message(items, sp, n, v, idname, plat)
        if msgs and r.random() < 0.25:      # several messages with one id
            v = r.choice(nums)
            for o in range(1, r.randrange(2, 4)):
                self.message(items, r.choice(spaces), self.name(), v, None, plat, order=o)
            a['nonUniqueMsgIdAllowed'] = 'true'
        for i in range(k.get('frames', r.choice([1, 1, 1, 2]))):
            sp = r.choice(spaces)
            items.append((sp, 'frames', self.frame(idname, [x for x in ifaces if x[1]], verf)))
        if k.get('code') and r.random() < .9:
            self.code(items, k['code'])
        if k.get('cust'):
            for _, _, e in items:
                self.customizable(e)
        # the items in documents order, grouped at random, in their namespaces
        order = {'fields': 0, 'interfaces': 1, 'messages': 2, 'frames': 3}
        kids = list(plats)
        for g in sorted(order, key=order.get):
            for sp, gg, e in items:
                if gg != g:
                    continue
                x = E(g, None, [e]) if g == 'fields' or r.random() < 0.4 else e
                for s in reversed(sp):
                    x = ns(s, x)
                kids.append(x)
        return E('schema', a, kids)

    def code(self, items, p):
        """what the schema says about code supplied by the user"""
        r = self.r
        fns = ['value', 'read', 'write', 'refresh', 'length', 'valid', 'name']
        seen = []       # (group, tag, reference, element)
        groups = {'fields': 0, 'interfaces': 1, 'messages': 2, 'frames': 3}
        for sp, g, e in sorted(items, key=lambda x: groups[x[1]]):
            if g in ('fields', 'messages'):
                for fn in fns if g == 'fields' else fns[1:]:
                    if r.random() < .2 * p:
                        e.set(fn + 'Override', r.choice(['any', 'none', 'replace', 'extend', 'none']))
                same = [x for x in seen if x[0] == g]
                if same and r.random() < .5 * p:
                    e.set('copyCodeFrom', r.choice(same)[2])
                elif g == 'fields' and r.random() < .3 * p and e.t in ('int', 'enum', 'set', 'float', 'string', 'data') and e.get('semanticType') is None:
                    k = [x for x in same if x[1] == e.t and x[3].get('semanticType') is None]
                    if k:
                        e.a = [(a, b) for a, b in e.a if a == 'name' or a.endswith('Override')] + [('reuse', r.choice(k)[2]), ('reuseCode', r.choice(['true', 'true', 'false']))]
                        e.c = []
            elif g == 'interfaces' and r.random() < .5 * p:
                same = [x for x in seen if x[0] == g]
                if same and e.get('name'):
                    e.set('reuse', r.choice(same)[2])
                    e.set('reuseCode', r.choice(['true', 'true', 'false']))
                    e.c = []
            if g == 'frames':
                continue
            for m in list(e.walk())[1:]:
                if m.get('name') and m.t in ('int', 'enum', 'set', 'float', 'bitfield', 'bundle', 'string', 'data', 'list', 'ref', 'optional', 'variant'):
                    for fn in fns:
                        if r.random() < .03 * p:
                            m.set(fn + 'Override', r.choice(['any', 'none', 'none', 'none'] + ['replace'] * (r.random() < .05)))
                    same = [x for x in seen if x[0] == 'fields']
                    if same and r.random() < .2 * p:
                        m.set('copyCodeFrom', r.choice(same)[2])
            if e.get('name'):
                seen.append((g, e.t, '.'.join(sp + (e.get('name'),)), e))

    def message(self, items, sp, n, v, idname, plat, order=None):
        r = self.r
        a = {'id': str(v)}
        if idname and r.random() < 0.7:
            a['id'] = idname + '.' + n[0].upper() + n[1:]
        if order:
            a['order'] = str(order)
        c = r.random()
        if c < 0.25:
            a['sender'] = 'client'
        elif c < 0.5:
            a['sender'] = 'server'
        if plat and r.random() < 0.6:
            ps = r.sample(plat, r.randrange(1, len(plat) + 1))
            a['platforms'] = r.choice(['', '+', '-'])
            a['platforms'] = (a['platforms'] or '+') + ','.join(ps)
            if a['platforms'] == '-' + ','.join(ps) and len(ps) == len(plat):
                a['platforms'] = '+' + ','.join(ps)
        s = self.vers(a, 0, rem=True, p=0.3)
        fs = []
        self.topv = int(a.get('deprecated', self.topv))
        for i in range(r.randrange(0, 4)):
            fs.append(self.member(('f%d' if r.random() < 0.7 else 'F%d') % i, 0, s))
        self.topv = 1 << 30
        e = f('message', n, *fs, **a)
        if self.k.get('conds'):
            p = self.k['conds']
            self.condize(fs, True)
            ifs = self.targets([x[1] for x in self.ifs], '%')
            if r.random() < p:
                self.cond(e, 'validCond', self.targets(fs) + ifs, .5)
            if ifs and r.random() < p:
                self.cond(e, 'readCond', ifs, .4)
            if ifs and r.random() < p and self.cond(e, 'construct', ifs, .5, True):
                for x in ('constructAsReadCond', 'constructAsValidCond'):
                    if r.random() < .3 and not e.get(x[11:].lower().replace('cond', 'Cond')):
                        e.set(x, 'true')
            if r.random() < .2:
                e.set('failOnInvalid', 'true')
        items.append((sp, 'messages', e))

    # ------------------------------------------------------------ conditions

    def targets(self, fs, pre='$'):
        """what conditions can say about these fields: (prefix, path, element)"""
        res = []

        def walk(path, e, depth=0):
            if e.t == 'ref':
                for g in self.globals:
                    if g[0] == e.get('field'):
                        walk(path, g[2], depth + 1)
                return
            res.append((pre, path, e))
            if e.t in ('bundle', 'bitfield'):
                ms = inside(e)
                for m in ms:
                    walk(path + [m.get('name')], m, depth + 1)
            elif e.t == 'optional' and not e.get('field'):
                ms = inside(e)
                for m in ms:
                    walk(path + [m.get('name')], m, depth + 1)
        for e in fs:
            walk([e.get('name')], e)
            if e.get('sinceVersion') or e.get('removed'):
                res.append((pre, ['?' + e.get('name')], e))
        return res

    def literal(self, e):
        """something a field may be compared to"""
        r = self.r
        if e.t in ('int', 'enum', 'float') and r.random() < .35:
            names = [x.get('name') for x in e.c if x.t in ('special', 'validValue') and x.get('name')]
            if e.get('semanticType') in ('version', 'length'):
                names = []
            if names:
                return r.choice(names)
        if e.t in ('int', 'enum', 'set', 'float') and not e.get('semanticType') and r.random() < .25:
            g = [x for x in self.globals if x[1] in ('plain', 'int', 'enum') + (('float',) if e.t == 'float' else ())]
            if g:
                x = r.choice(g)
                names = [y.get('name') for y in x[2].c if y.t in ('special', 'validValue') and y.get('name')]
                if names and r.random() < .8:
                    return x[0] + '.' + r.choice(names)
                return x[0]
        if e.t == 'float':
            return r.choice(['0', '1.5', '-2.25', '100', '0.125', '3.0', '-1', 'inf', '-inf', 'nan'])
        if e.t == 'string':
            return r.choice(['abc', 'x', 'hello'])
        return r.choice(['0', '1', '2', '5', '7', '100', '127', '0x7f', '0xA'])

    def expr(self, ts, build=False):
        r = self.r
        ops = ['='] if build else ['=', '=', '!=', '<', '>', '<=', '>=']
        for _ in range(20):
            pre, path, e = r.choice(ts)
            p = pre + '.'.join(path)
            if path[0].startswith('?'):
                if build:
                    continue
                return r.choice(['', '!']) + p
            if e.t == 'optional':
                if build:
                    continue
                return r.choice(['', '!']) + pre + '?' + p[1:]
            if e.t == 'set' and r.random() < .7:
                bits = [b.get('name') for b in e.c if b.t == 'bit']
                if bits:
                    return r.choice(['', '!']) + p + '.' + r.choice(bits)
            if e.t in ('string', 'data', 'list') and not build and (e.t != 'string' or r.random() < .6):
                return pre + '#' + p[1:] + ' ' + r.choice(ops) + ' ' + r.choice(['0', '0', '1', '5', '0x0', '0x3', '0x1F'])
            if e.t in ('int', 'enum', 'set', 'float', 'string'):
                if e.t == 'string' and build:
                    continue
                if r.random() < .3:
                    same = [x for x in ts if x[2].t == e.t and not x[1][0].startswith('?')]
                    deep = [x for x in same if x[1] != path and len(x[1]) > 1]
                    q = r.choice(deep if deep and r.random() < .4 else same)
                    return p + ' ' + r.choice(ops) + ' ' + q[0] + '.'.join(q[1])
                return p + ' ' + r.choice(ops) + ' ' + self.literal(e)
        return None

    def cond(self, e, prop, ts, nest=.4, build=False):
        """adds a condition to an element; optional fields have lists without an element around"""
        r = self.r
        if not ts:
            return False

        def some(depth):
            kids = []
            for _ in range(r.randrange(2, 4)):
                if depth < 2 and r.random() < .25:
                    kids.append(some(depth + 1))
                else:
                    x = self.expr(ts, build)
                    if x:
                        kids.append(E(prop, {'value': x}))
            while len(kids) < 2:
                x = self.expr(ts, build)
                if not x:
                    return E(prop, {'value': '$none'})
                kids.append(E(prop, {'value': x}))
            return E('and' if build else r.choice(['and', 'or']), None, kids)
        if r.random() < nest:
            k = some(0)
            wrap = {'message': 'fields', 'optional': 'field'}.get(e.t, 'members')
            if e.c and not any(x.t == wrap for x in e.c):
                own = [x for x in e.c if x.t in FIELDS]
                e.c = [x for x in e.c if x.t not in FIELDS] + ([E(wrap, None, own)] if own else [])
            e.c.append(k if e.t == 'optional' else E(prop, None, [k]))
            return True
        x = self.expr(ts, build)
        if x:
            e.set(prop, x)
        return bool(x)

    def condize(self, fs, iface):
        """conditions of the optional ones among these fields"""
        r = self.r
        for i, e in enumerate(fs):
            if e.t != 'optional' or r.random() > self.k['conds'] or e.get('cond'):
                continue
            ts = self.targets(fs[:i])
            if iface and r.random() < .5:
                ts += self.targets([x[1] for x in self.ifs], '%')
            self.cond(e, 'cond', ts)

    def customizable(self, e):
        if e.t in FIELDS or e.t == 'message':
            if self.r.random() < self.k['cust']:
                e.set('customizable', self.r.choice(['true', 'true', 'false']))
        for c in e.c:
            self.customizable(c)

    def frame(self, idname, ifaces, verf):
        r = self.r
        ls = []
        def fld(n):
            return E('field', None, [self.uint(n)])
        if r.random() < 0.25:
            ls.append(E('sync', {'name': 'Sync'}, [f('int', 'Sy', E('validValue', {'value': '0xab'}), type='uint16', defaultValue='0xab', failOnInvalid='true', fixedValue='true')]))
        if r.random() < 0.5:
            ls.append(E('size', {'name': 'Size'}, [self.uint('Sz')]))
        if r.random() < (1 if self.k.get('withid') else 0.75):
            ls.append(E('id', {'name': 'Id', 'field': idname} if idname and r.random() < 0.7 else {'name': 'Id'}, []))
            if not ls[-1].get('field'):
                ls[-1].c = [f('int', 'IdF', type='uint64')]
        if ifaces and r.random() < 0.6:
            ls.append(E('value', {'name': 'Val', 'interfaces': r.choice(ifaces)[0], 'interfaceFieldName': 'ver', 'field': verf}))
        if r.random() < 0.1:
            ls.append(E('custom', {'name': 'Cust'}, [self.uint('Cf')]))
        ls.append(E('payload', {'name': 'Data'}))
        if r.random() < 0.3:
            frm = r.choice([l for l in ls]).get('name')
            a = {'name': 'Cs', 'alg': r.choice(['sum', 'xor', 'crc-ccitt', 'crc-16', 'crc-32']), 'from': frm}
            ls.append(E('checksum', a, [self.uint('Ck')]))
        if self.k.get('rich'):
            ls = self.layers(ls)
        n = self.name('Fr')
        return f('frame', n, *ls)

    def layers(self, ls):
        """the less usual kinds of layers"""
        r = self.r
        pay = [i for i, l in enumerate(ls) if l.t == 'payload'][0]
        esc = lambda: ({'escField': self.pick(('plain',), 0)[0]}, []) if self.pick(('plain',), 0) and r.random() < .4 else \
            ({}, [E('escField', None, [self.uint('Esc')])]) if r.random() < .7 else ({}, [])
        def fld(e, kids):
            return [E('field', None, [e])] + kids if kids or r.random() < .5 else [e]
        first = None
        if ls[0].t == 'sync':
            first = ls[0]
            if r.random() < .6:
                a, kids = esc()
                e = first.c[0]
                first.c = fld(e, kids)
                first.set('seekField', 'true')
                for k, v in a.items():
                    first.set(k, v)
        if r.random() < .4:
            a = r.choice([{'idReplacement': 'true'}, {'semanticLayerType': 'id'}, {'semanticLayerType': 'size'}, {}, {'semanticLayerType': 'custom'}])
            if not ('id' in a.get('semanticLayerType', '') or 'idReplacement' in a) or not any(l.t == 'id' for l in ls):
                e = self.uint('Cx') if a else self.field('Cx', 1, 0, r.choice(['bundle', 'string', 'list', 'data', 'int']))
                ls.insert(r.randint(1 if first else 0, pay), E('custom', dict(a, name='Cust2'), fld(e, [])))
        pay = [i for i, l in enumerate(ls) if l.t == 'payload'][0]
        before = [l.get('name') for l in ls[:pay] if l is not first]
        cs = ls[pay + 1:]
        if not cs and r.random() < .25:
            a = {'semanticLayerType': 'checksum', 'name': 'Cks', 'checksumFrom': r.choice(before + ['Data'])}
            ls.append(E('custom', a, fld(self.uint('Ck2'), [])))
        elif not cs and r.random() < .2:
            ls.insert(pay, E('checksum', {'name': 'Cp', 'alg': r.choice(['sum', 'xor', 'crc-16']), 'until': 'Data'}, fld(self.uint('Ck3'), [])))
        elif cs and r.random() < .3:
            cs[0].set('verifyBeforeRead', 'true')
        if r.random() < .2:
            a, kids = esc() if r.random() < .5 else (None, [])
            d = {'name': 'End', 'from': r.choice(before + ['Data'])}
            d.update({'verifyBeforeRead': 'true'} if a is None else dict(a, seekField='true'))
            ls.append(E('sync', d, fld(f('int', 'Se', type='uint8', defaultValue='0x3'), kids)))
        return ls


def protocol(r, schemas=1, **k):
    """a list of schema elements; the later ones may refer to the earlier"""
    p = Proto(r, **k)
    docs = []
    for i in range(schemas):
        last = i == schemas - 1
        name = k.get('name', 'proto') if last else 'base%d' % i
        if not last:
            docs.append(p.schema(name, **dict(k, msgs=k.get('basemsgs', r.choice([0, 0, 1, 2])), frames=1 if r.random() < 1 else 0)))
            p.globals = [('@%s.%s' % (name, g[0]) if not g[0].startswith('@') else g[0],) + g[1:] for g in p.globals]
        else:
            docs.append(p.schema(name, **k))
    for d in docs if k.get('show') else []:
        shown(r, d, k['show'], int(d.get('version') or 0))
    return docs


def again(r, e, own, version):
    """another name for one of the values (bits) of e"""
    e.set('nonUniqueAllowed', 'true')
    for i in range(r.randrange(1, 3)):
        x = r.choice(own)
        y = x.clone().set('name', r.choice(['A', 'Q', 'Z', 'zz']) + str(i))
        z = r.choice([x, y])
        if version and z.get('deprecated') is None and r.random() < .7:
            z.set('deprecated', str(version if r.random() < .6 else r.randrange(1, version + 1)))
        e.c.insert(r.randrange(len(e.c) + 1), y)


def shown(r, e, p, version, up=''):
    """display names, units and decimals for some of the elements below e"""
    part = (e.t == 'validValue' and up == 'enum') or e.t in ('special', 'bit')
    if (part or e.t in FIELDS or e.t == 'message') and r.random() < p and e.get('displayName') is None and e.get('name') is not None:
        n = e.get('name')
        e.set('displayName', r.choice(['_', 'Shown', n.upper(), n + ' ' + n, 'a.b (%s)' % n, n, 'x' + n]))
    own = [x for x in e.c if x.t in ('validValue', 'bit')]
    if e.t == 'enum' and own and e.get('semanticType') is None and r.random() < p:
        if e.get('type') in ('uint64', 'int64') and e.get('length') is None and e.get('bitLength') is None:
            for i in range(r.randrange(1, 4)):
                x = r.choice([5, 1000, 1 << 40, (1 << 62) + i, (1 << 63) - 1 - i] + ([(1 << 63) + i, (1 << 64) - 1 - i] if e.get('type')[0] == 'u' else [-5 - i, -(1 << 62)]))
                e.c.append(E('validValue', {'name': 'W%d' % i, 'val': str(x)}))
                e.set('nonUniqueAllowed', 'true')
        elif r.random() < .5:
            again(r, e, own, version)
    if e.t == 'set' and own and r.random() < p:
        again(r, e, own, version)
    if e.t in ('int', 'float') and r.random() < p / 2:
        if r.random() < .6:
            e.set('units', r.choice(UNITS))
        if r.random() < .4:
            e.set('displayDecimals', str(r.choice([1, 2, 5, 0])))
    for x in e.c:
        shown(r, x, p, version, e.t)


UNITS = ['ns', 'us', 'ms', 's', 'min', 'h', 'd', 'w', 'nm', 'um', 'mm', 'cm', 'm', 'km', 'nm/s', 'umps', 'mm/s', 'cmps', 'm/s', 'km/s', 'kph', 'hz', 'kHz',
         'MHz', 'GHz', 'deg', 'rad', 'nA', 'uA', 'mA', 'A', 'kA', 'nV', 'uV', 'mV', 'V', 'kV', 'B', 'kB', 'MB', 'GB', 'TB', 'kilometers/hour', 'bytes']
