"""Building blocks of documents: elements, values worth trying, a prelude of things to refer to."""
import random, re
from xml.sax.saxutils import quoteattr, escape


class E:
    """an element: tag, attributes (list of pairs), children, text"""
    __slots__ = ('t', 'a', 'c', 'x')

    def __init__(self, t, a=None, c=(), x=None):
        self.t, self.a, self.c, self.x = t, list((a or {}).items()) if isinstance(a, dict) or a is None else list(a), list(c), x

    def xml(self):
        s = '<' + self.t
        seen = set()
        for k, v in self.a:
            if k not in seen:
                seen.add(k)
                s += ' %s=%s' % (k, quoteattr(str(v)))
        if not self.c and self.x is None:
            return s + '/>'
        return s + '>' + (escape(self.x) if self.x is not None else '') + ''.join(c.xml() for c in self.c) + '</' + self.t + '>'

    def get(self, k):
        return dict(self.a).get(k)

    def set(self, k, v):
        self.a = [(x, y) for x, y in self.a if x != k] + [(k, v)]
        return self

    def clone(self):
        return E(self.t, list(self.a), [c.clone() for c in self.c], self.x)

    def walk(self):
        yield self
        for c in self.c:
            yield from c.walk()


def schema(kids, **a):
    d = {'name': 's1', 'version': '5', 'endian': 'big'}
    d.update(a)
    return E('schema', [(k, v) for k, v in d.items() if v is not None], kids)


def fields(*fs):
    return E('fields', None, fs)


def ns(name, *kids):
    return E('ns', {'name': name}, kids)


def f(kind, name, *kids, **a):
    d = {'name': name} if name is not None else {}
    d.update(a)
    return E(kind, d, kids)


# things other definitions may refer to
def prelude(only=None):
    fs, es = _prelude(), _prelude_elems()
    if only is None:
        return ns('p', fields(*fs), *es)
    want = set(only)
    for x, y in (('MB', 'MA'), ('MA', 'IA'), ('IB', 'IA'), ('Re', 'I'), ('ReBu', 'Bu')):
        if x in want:
            want.add(y)
    return ns('p', fields(*[x for x in fs if x.get('name') in want]), *[x for x in es if x.get('name') in want])


def needs(xml):
    """the names of the prelude fields a document mentions"""
    return set(re.findall(r'\bp\.(\w+)', xml))


def with_prelude(*kids, **a):
    """a schema with the part of the prelude its content refers to"""
    x = ''.join(k.xml() for k in kids)
    n = needs(x)
    if n or re.search(r'[\"^@.$>]p\"', x):
        return schema([prelude(n | {'I'})] + list(kids), **a)
    return schema(list(kids), **a)


def _prelude():
    return (
        f('int', 'I', f('special', 'S1', val='0'), f('special', 'S2', val='7'), type='uint8', defaultValue='3', validRange='[0, 10]'),
        f('int', 'Neg', f('special', 'M', val='-5'), type='int16', defaultValue='-2'),
        f('int', 'Big', type='uint64', defaultValue='0xffffffffffffffff'),
        f('int', 'Len', type='uint16', semanticType='length'),
        f('enum', 'En', f('validValue', 'V1', val='1'), f('validValue', 'V2', val='2'), f('validValue', 'V300', val='300'), type='uint16', defaultValue='V2'),
        f('enum', 'Ids', f('validValue', 'M1', val='1'), f('validValue', 'M2', val='2'), f('validValue', 'M3', val='3'), type='uint8', semanticType='messageId'),
        f('set', 'St', f('bit', 'b0', idx='0'), f('bit', 'b3', idx='3', defaultValue='true'), length='1'),
        f('float', 'Fl', f('special', 'sp', val='1.5'), f('special', 'na', val='nan'), type='float', defaultValue='2.5'),
        f('float', 'Db', type='double', defaultValue='-inf'),
        f('string', 'Str', defaultValue='abc', length='8'),
        f('string', 'Zs', zeroTermSuffix='true', defaultValue='zz'),
        f('data', 'Da', defaultValue='01ab', length='4'),
        f('bundle', 'Bu',
          f('int', 'm1', f('special', 'q', val='9'), type='uint8', defaultValue='4'),
          f('set', 'm2', f('bit', 'x', idx='1'), length='1'),
          f('bundle', 'm3', f('int', 'deep', type='int8', defaultValue='-1'), f('string', 'ds', defaultValue='dd'))),
        f('bitfield', 'Bf', f('int', 'lo', type='uint8', bitLength='3', defaultValue='2'),
          f('set', 'hi', f('bit', 'z', idx='2'), bitLength='5'),
          f('enum', 'me', f('validValue', 'A', val='0'), f('validValue', 'B', val='1'), type='uint8', bitLength='8')),
        f('list', 'Li', f('int', 'e', type='uint8'), count='3'),
        f('ref', 'Re', field='p.I'),
        f('ref', 'ReBu', field='p.Bu'),
        f('optional', 'Op', f('int', 'in', type='uint8', defaultValue='6'), defaultMode='exists'),
        f('variant', 'Va', f('int', 'v1', type='uint8'), f('string', 'v2', length='2')),
    )


# messages and interfaces to refer to
def _prelude_elems():
    return (
        f('interface', 'IA', f('fields', None, f('set', 'flags', f('bit', 'fa', idx='0'), f('bit', 'fb', idx='1'), length='1'),
          f('int', 'ver', type='uint8', semanticType='version'), f('string', 'tag', length='2')),
          f('alias', 'fl', field='$flags'), description='if a'),
        f('interface', 'IB', f('int', 'ver', type='uint16'), f('set', 'flags', f('bit', 'fb', idx='3'), length='1')),
        f('message', 'MA', f('fields', None, f('int', 'a', f('special', 'Z', val='0'), type='uint8'),
          f('set', 'b', f('bit', 'b0', idx='0'), f('bit', 'b1', idx='1'), length='1'),
          f('string', 'c', lengthPrefix='$a'), f('bundle', 'd', f('int', 'd1', type='int16'), f('enum', 'd2', f('validValue', 'V', val='1'), type='uint8')),
          f('optional', 'e', f('int', 'in', type='uint8'), cond='$b.b0', defaultMode='missing'),
          f('int', 'since2', type='uint8', sinceVersion='2'), f('int', 'gone3', type='uint32', deprecated='3', removed='true')),
          f('alias', 'al', field='$d.d1'), f('alias', 'bits', field='$b'), f('alias', 'ag', field='$gone3'),
          id='77', order='1', sender='client', validCond='$a != 0', readCond='%flags.fa', construct='%flags.fb', displayName='Msg A',
          customizable='true', failOnInvalid='true', validOverride='extend', readOverride='replace', description='message a'),
        f('message', 'MB', copyFieldsFrom='p.MA', copyFieldsAliases='true', id='78', sinceVersion='1', deprecated='4', removed='true'),
    )


MSGREFS = ['p.MA', 'p.MB', 'p.Bu', 'p.IA', 'p.Nope', 'p.I', '@s1.p.MA', 'p.mA', 'p', '', 'q.MA']
IFREFS = ['p.IA', 'p.IB', 'p.Bu', 'p.MA', 'p.Nope', '@s1.p.IA', 'p', '']
NUMREFS = ['p.I', 'p.I.S1', 'p.Neg', 'p.Neg.M', 'p.Big', 'p.En', 'p.En.V1', 'p.En.V300', 'p.St.b3', 'p.St', 'p.Bu.m1', 'p.Bu.m1.q', 'p.Bu.m2.x',
           'p.Bu.m3.deep', 'p.Bf.lo', 'p.Bf.hi.z', 'p.Bf.me.B', 'p.Re', 'p.Re.S2', 'p.ReBu.m1', 'p.Op.in', 'p.Op', 'p.Va.v1', 'p.Nope', 'p.I.Nope', 'q.I',
           'p', 'p.Str', 'p.Li', 'p.Fl', 'p.Fl.sp', 'p.Da', 'p.i', '@s1.p.I', '@s2.p.I', '@s1']
NAMES = ['a', 'b', 'c', 'd', 'e', 'f1', 'G', 'h_h', '_i', 'k2']
BADNAMES = ['', '1x', 'a b', 'a.b', 'a-b', 'é', '@a', '.']
BOOLS = ['true', 'false', '1', '0', 'TRUE', 'False', 'yes', '', 'tru']
INTTYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'intvar', 'uintvar']
SMALLN = ['0', '1', '2', '3', '4', '5', '7', '8', '9', '10', '16', '0x10', '010']
INTVALS = ['0', '1', '2', '3', '5', '7', '10', '100', '127', '128', '255', '256', '32767', '32768', '65535', '65536', '-1', '-2', '-128', '-129', '-32768',
           '2147483647', '2147483648', '4294967295', '4294967296', '-2147483648', '9223372036854775807', '9223372036854775808', '-9223372036854775808',
           '18446744073709551615', '18446744073709551616', '-9223372036854775809', '0x7f', '0xFF', '017', ' 5', '5 ', '+3', '5x', 'x5', '', '0x', '1.5']
RNGVALS = ['[0, 5]', '[3,9]', '[6, 7]', '[10, 20]', '[5, 2]', '[-5, 5]', '[0, 255]', '[250, 260]', '[-200, -100]', '(1, 2)', '[1 2]', '[1,2,3]', '[,]', '[1, 2', '[S, 9]',
           '[0, S]', '[ 1 , 2 ]', '[-1, 18446744073709551615]', '[9223372036854775800, 9223372036854775807]', '[0x10, 0x20]']
FPVALS = ['0', '1', '-1', '1.5', '-2.25', '1e10', '3.4028235e38', '3.5e38', '-3.5e38', '1e308', '1e309', 'nan', 'NaN', 'inf', '-inf', 'INF', '+inf', '1e-40', 'x', '',
          '0x1p3', '5', '16777217', '0.1', '1.5f']
FPRNGS = ['[0, 1]', '[0.5, 2.5]', '[1, 1]', '[2, 3]', '[-1.5, 0]', '[3, 1]', '[0, inf]', '[-inf, 0]', '[nan, 1]', '[sp, 9]', '[1e38, 1e39]', '(0, 1)', '[0 1]']


def pick(r, l, bias=None):
    return l[r.randrange(len(l))]
