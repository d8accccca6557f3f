"""What each check of the parser feeds to the real parser: per property, a generator of jobs."""
import glob, itertools, os, random, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import drive
from elemgen import *

CORPUS = os.path.join(drive.VERIF, 'corpus')


class Gen:
    def __init__(self, pid, tier, seed):
        self.pid, self.deep, self.jobs, self.seen = pid, tier == 'thorough', [], set()
        self.r = random.Random('%s-%s' % (pid, seed))

    def add(self, what, *docs, ops=None, multi=False, pfx=()):
        docs = [d if isinstance(d, str) else d.xml() for d in docs]
        key = (tuple(docs), tuple(ops or ()), multi, tuple(pfx))
        if key not in self.seen:
            self.seen.add(key)
            self.jobs.append(drive.Job('%s-%d-%s' % (self.pid, len(self.jobs), what), docs, ops, multi, pfx))

    def n(self, quick, deep):
        return deep if self.deep else quick

    def some(self, l, quick, deep=10 ** 9):
        """all of l, or a random part of it"""
        l = list(l)
        k = self.n(quick, deep)
        return l if len(l) <= k else self.r.sample(l, k)

    def field(self, what, *fs, **a):
        self.add(what, with_prelude(fields(*fs), **a))


GENS = {}


def gen(f_):
    GENS[f_.__name__] = f_
    return f_


def jobs(pid, tier, seed):
    g = Gen(pid, tier, seed)
    GENS[pid](g)
    return g.jobs


# ---------------------------------------------------------------- P01

HISTORY = {'states': 0, 'distinct': 0, 'histories': 0, 'alphabets': 0}


def histories(docs, depth, multi):
    """all maximal histories of calls over these documents, from the specification"""
    import json, tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.ndjson', delete=False) as f:
        f.write(json.dumps({'depth': depth, 'multi': multi}) + '\n')
        for d in docs:
            f.write(json.dumps(drive.lex.document(drive.full(d))) + '\n')
    try:
        rc, text = drive.tlc('Explore', {'DOCS': f.name}, workers=1, mem='2g')
    finally:
        os.remove(f.name)
    if rc != 0:
        raise drive.ToolError('exploration failed (%d):\n%s' % (rc, text[-3000:]))
    a, b = drive.tlc_stats(text)
    HISTORY['states'] += a
    HISTORY['distinct'] += b
    HISTORY['alphabets'] += 1
    res = []
    for l in text.splitlines():
        if l.startswith('"HIST '):
            res.append(json.loads(json.loads(l)[5:]))
    HISTORY['histories'] += len(res)
    return res


def alphabets(r):
    """documents which may or may not go together"""
    i = lambda n, **a: f('int', n, type='uint8', **a)
    S = lambda kids=(), **a: schema(list(kids), **a)
    anon = lambda kids=(), **a: E('schema', dict(a), list(kids))
    msg = lambda n, id, **a: bmsg(n, id=id, **a)
    yield 'names', [S([fields(i('x'))], name='A', id='1', endian='big'), S([fields(i('y'))], name='A', id='1', endian='big'),
                    S([fields(i('z'))], name='B', id='2', endian='big'), anon([fields(i('w'))])], 4
    yield 'headers', [S(name='A', id='1', version='5', endian='big'), S(name='A', id='2', version='5', endian='big'),
                      S(name='A', id='1', version='6', endian='big'), anon(id='1'), anon(endian='little'), anon(name='A')], 3
    yield 'headers2', [S(name='A', id='1', endian='big', description='d'), anon(description='d'), anon(description='e'),
                       anon(nonUniqueMsgIdAllowed='true'), anon(dslVersion='4'), anon(xattr='q')], 3
    yield 'dsl', [S(name='A', id='1', endian='big', dslVersion='4'), S(name='B', id='1', endian='big', dslVersion='4'),
                  S(name='B', id='1', endian='big', dslVersion='5'), S(name='C', id='1', endian='big')], 4
    yield 'ids', [S([msg('M', '1')], name='A', id='1', endian='big'), anon([msg('N', '1')]), anon([msg('K', '1', order='2')]),
                  anon([msg('L', '2')]), anon([ns('n', msg('M', '1'))])], 4
    yield 'nonunique', [S([msg('M', '1')], name='A', id='1', endian='big', nonUniqueMsgIdAllowed='true'), anon([msg('N', '1', order='1')]),
                        anon([msg('K', '1')]), anon([ns('n', ns('m', msg('M', '1')))]), anon([ns('n', msg('J', '1', order='1'))])], 4
    yield 'names2', [S([ns('n', fields(i('x')))], name='A', id='1', endian='big'), anon([ns('n', fields(i('X')))]),
                     anon([ns('n', fields(i('y')))]), anon([ns('n', msg('x', '1'))]), anon([ns('m', fields(i('x')))])], 4
    yield 'order', [S([fields(f('ref', 'r', field='n.x'))], name='A', id='1', endian='big'), S([ns('n', fields(i('x')))], name='A', id='1', endian='big'),
                    anon([fields(f('ref', 'q', field='n.x'))]), anon([fields(f('ref', 'p', field='r'))])], 4
    yield 'schemas', [S([fields(i('x'))], name='A', id='1', endian='big'), S([fields(f('ref', 'r', field='@A.x'))], name='B', id='1', endian='big'),
                      S([fields(f('ref', 'r', field='x'))], name='B', id='1', endian='big'), S([fields(f('ref', 's', field='@B.r'))], name='A', id='1', endian='big')], 4
    yield 'broken', [S([fields(i('x'))], name='A', id='1', endian='big'), '<schema name="A"', '<other name="A"/>', anon(), E('schema', {'name': '1'}),
                     anon([fields(i('y', defaultValue='256'))])], 3
    yield 'platforms', [S([f('platforms', None, f('platform', 'P1'))], name='A', id='1', endian='big'), anon([f('platform', 'P1')]),
                        anon([f('platform', 'P2')]), anon([msg('M', '1', platforms='+P1')]), anon([msg('N', '2', platforms='-P2')])], 4


def split(r, kids):
    """the children of a schema, in order, over several documents"""
    cuts = sorted(r.sample(range(len(kids) + 1), min(len(kids) + 1, r.randrange(1, 4))))
    return [kids[a:b] for a, b in zip([0] + cuts, cuts + [len(kids)])]


@gen
def P01(g):
    r = g.r
    todo = [(name, [d if isinstance(d, str) else d.xml() for d in docs], depth + g.deep, multi)
            for name, docs, depth in alphabets(r) for multi in (False, True)]
    with ThreadPoolExecutor(drive.NCPU) as ex:
        for (name, docs, _, multi), hs in zip(todo, ex.map(lambda t: histories(*t[1:]), todo)):
            for h in g.some(hs, 260, 6000):
                used = sorted(set(x for x in h if x))
                g.add(name, *[docs[d - 1] for d in used], ops=['P%d' % used.index(x) if x else 'V' for x in h], multi=multi)
    # one protocol, in one file and in several; with and without the header repeated
    heads = [('id', ['1', '2', '0x1', '']), ('version', ['5', '6', '05', '']), ('endian', ['big', 'little', 'Big']), ('description', ['d', 'e']),
             ('dslVersion', ['4', '5', '7']), ('nonUniqueMsgIdAllowed', ['true', 'false', '1']), ('displayName', ['q', 'z']), ('zz', ['1', '2'])]
    for _ in range(g.n(500, 6000)):
        kids = tops(r, r.randrange(2, 7))
        head = {k: r.choice(v if r.random() < 0.05 else v[:2]) for k, v in heads if r.random() < 0.5}
        parts = split(r, kids)
        docs = []
        for n, part in enumerate(parts):
            h = dict(head, name='A') if n == 0 else {k: (v if r.random() < 0.93 else r.choice(dict(heads)[k])) for k, v in head.items() if r.random() < 0.5}
            if n and r.random() < 0.4:
                h['name'] = 'A' if r.random() < 0.9 else 'B'
            if n and r.random() < 0.1:
                k, v = r.choice(heads)
                h.setdefault(k, r.choice(v))
            docs.append(E('schema', h, part))
        g.add('split', *docs, multi=r.random() < 0.4)
        g.add('whole', E('schema', dict(head, name='A'), kids))
    # several schemas with contents, one after another and interleaved
    for _ in range(g.n(200, 3000)):
        docs = []
        for _ in range(r.randrange(2, 6)):
            h = {}
            if not docs or r.random() < 0.8:
                h['name'] = r.choice('ABC')
            if r.random() < 0.3:
                h['dslVersion'] = r.choice('4567')
            docs.append(E('schema', h, tops(r, r.randrange(0, 3))))
        g.add('several', *docs, multi=r.random() < 0.85)


def tops(r, n):
    ks = r.sample(range(40), n) if r.random() < 0.8 else [r.randrange(10) for _ in range(n)]
    return [top(r, k, ks[:j]) for j, k in enumerate(ks)]


def top(r, k, before):
    """a small definition at the top of a schema"""
    i = lambda n, **a: f('int', n, type='uint8', **a)
    n = 'e%d' % k
    e = r.choice([lambda: fields(i(n)), lambda: fields(i(n), f('ref', n + 'r', field=n)), lambda: fields(f('ref', n, field='e%d' % r.choice(before or [k]))),
                  lambda: bmsg(n, i('m'), id=str(k if r.random() < 0.9 else r.randrange(40))), lambda: f('interface', n, i('m')), lambda: E('messages', None, [bmsg(n, id=str(k))]),
                  lambda: f('frame', n, layer('size', 'a'), layer('payload', 'b')), lambda: f('platform', 'P%d' % (k % 5)),
                  lambda: bmsg(n, i('m'), id=str(k), platforms=r.choice('+-') + 'P%d' % (r.choice(before or [k]) % 5) if r.random() < 0.4 else ''), lambda: fields(f('bundle', n, i('u'), i('v')))])()
    for _ in range(r.choice([0, 0, 1, 2])):
        if e.t != 'platform':
            e = ns(r.choice('nmq'), e)
    return e


# ---------------------------------------------------------------- P02

@gen
def P02(g):
    r = g.r
    names = ['a', 'A', 'b', 'B', '_x', 'x1', 'aB', 'ab', 'a_b', 'int', 'class', 'MsgId', 'AB']
    bad = ['1x', 'a b', '', 'a.b', 'a-b', '@a', 'a,b', '$a', '_', '__', 'a' * 60, 'a\tb', ' a', 'a ']
    mk = {'field': lambda n: f('int', n, type='uint8'), 'message': lambda n: bmsg(n, id=str(len(n) + sum(map(ord, n)))), 'interface': lambda n: f('interface', n),
          'frame': lambda n: f('frame', n, layer('id', 'id'), layer('payload', 'data')), 'ns': lambda n: f('ns', n, fields(f('int', 'in', type='uint8')))}
    wrap = {'field': 'fields', 'message': 'messages', 'interface': 'interfaces', 'frame': 'frames'}
    def put(kind, e, grouped):
        return E(wrap[kind], None, [e]) if kind in wrap and (grouped or kind == 'field') else e
    # pairs of names of the same or different kinds, in one or two namespaces, in one or two files
    combos = [(k1, k2, n1, n2, pl) for k1 in mk for k2 in mk for n1 in ('a', 'A', 'b') for n2 in ('a', 'A', 'aB') for pl in range(6)]
    for k1, k2, n1, n2, pl in g.some(combos, 700):
        e1, e2 = mk[k1](n1), mk[k2](n2)
        if k2 == k1 == 'message':
            e2.set('id', '999')
        a, b = put(k1, e1, pl % 2), put(k2, e2, pl % 3 == 0)
        if pl == 0:
            if a.t == b.t == 'fields':
                ds = [schema([fields(e1, e2)])]
            else:
                ds = [schema([a, b])]
        elif pl == 1:
            ds = [schema([ns('n', a), ns('n', b)])]
        elif pl == 2:
            ds = [schema([ns('n', ns('m', a)), ns('n', ns('m', b))])]
        elif pl == 3:
            ds = [schema([a]), schema([b])]
        elif pl == 4:
            ds = [schema([ns('n', a), ns('N', b)])]
        else:
            ds = [schema([ns('n', ns('m', a)), ns('q', ns('m', b)), b.clone() if False else ns('n')]), schema([ns('n', ns('m', b))], **{'version': '5'})]
        g.add('pair', *ds)
    for k in mk:
        for nm in names + bad:
            g.add('name', schema([put(k, mk[k](nm), True)]))
            g.add('name', schema([ns('z', put(k, mk[k](nm), False))]))
    # members, layers, aliases, values
    for n1, n2 in itertools.product(['a', 'A', 'b', 'aB', 'AB', '_a', '1a', 'a b', ''], repeat=2):
        i = lambda n: f('int', n, type='uint8')
        bit = lambda n: f('int', n, type='uint8', bitLength='4')
        g.field('members', f('bundle', 't', i(n1), i(n2)))
        g.field('members', f('bitfield', 't', bit(n1), bit(n2)))
        g.field('members', f('variant', 't', i(n1), i(n2)))
        g.add('members', schema([bmsg('t', i(n1), i(n2))]))
        g.add('members', schema([f('interface', 't', i(n1), i(n2))]))
        g.add('layers', schema([f('frame', 't', layer('size', n1), layer('custom', n2), layer('payload', 'data'))]))
        g.field('values', f('enum', 't', f('validValue', n1, val='0'), f('validValue', n2, val='1'), type='uint8'))
        g.field('values', f('set', 't', f('bit', n1, idx='0'), f('bit', n2, idx='1'), length='1'))
        g.field('values', f('int', 't', f('special', n1, val='0'), f('special', n2, val='1'), type='uint8'))
        g.field('values', f('float', 't', f('special', n1, val='0'), f('special', n2, val='1'), type='float'))
        g.add('alias', schema([bmsg('t', f('fields', None, i('k'), i('l')), E('alias', {'name': n1, 'field': '$k'}), E('alias', {'name': n2, 'field': '$l'}))]))
        g.field('alias', f('bundle', 't', E('members', None, [i(n1 or 'q'), i('l')]), E('alias', {'name': n2, 'field': '$l'})))
    # random forests of definitions over several files
    for _ in range(g.n(700, 9000)):
        docs = []
        for d in range(r.randrange(1, 4)):
            kids = []
            for _ in range(r.randrange(1, 5)):
                k = r.choice(list(wrap) + ['field', 'message', 'ns'])
                e = mk[k](r.choice(names[:8] if r.random() < 0.97 else bad))
                if k == 'message':
                    e.set('id', str(r.randrange(1000)))
                if k == 'ns' and r.random() < 0.5:
                    k2 = r.choice(list(wrap))
                    e.c = [put(k2, mk[k2](r.choice(names[:4])), True)]
                e = put(k, e, r.random() < 0.5)
                for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                    e = ns(r.choice(['n', 'm', 'N']), e)
                kids.append(e)
            docs.append(schema(kids))
        g.add('forest', *docs)


# ---------------------------------------------------------------- P03

@gen
def P03(g):
    r = g.r
    ids = ['0', '1', '0x1', '2', '0x02', '16', '0x10', 'E.M1', 'E.M2', 'E.M16', '18446744073709551615', '0xffffffffffffffff', '9223372036854775808', '9223372036854775807', '255']
    enum = lambda: fields(f('enum', 'E', f('validValue', 'M1', val='1'), f('validValue', 'M2', val='2'), f('validValue', 'M16', val='0x10'), type='uint64', semanticType='messageId'))
    deepid = lambda: fields(f('enum', 'E', f('validValue', 'M1', val='1'), f('validValue', 'Neg', val='-1'), f('validValue', 'Big', val='-9223372036854775808'), type='int64'))
    # pairs of ids, orders and places
    places = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (0, 2), (3, 3)]
    def at(p, m):
        return {0: lambda: m, 1: lambda: ns('n', m), 2: lambda: ns('n', ns('m', m)), 3: lambda: ns('q', E('messages', None, [m]))}[p]()
    orders = [None, '0', '1', '2']
    combos = list(itertools.product(ids[:8], ids[:8], [(a, b) for a in orders for b in orders], places, [None, 'true', 'false']))
    for i1, i2, (o1, o2), (p1, p2), nu in g.some(combos, 1100, 16000):
        m1, m2 = bmsg('a', id=i1), bmsg('b', id=i2)
        if o1:
            m1.set('order', o1)
        if o2:
            m2.set('order', o2)
        a = {'nonUniqueMsgIdAllowed': nu} if nu else {}
        g.add('pair', schema([enum(), at(p1, m1), at(p2, m2)], **a))
    for i in MSG['id']:
        g.add('id', doc(bmsg('t', id=i)))
    for i in ['E.M1', 'E.Neg', 'E.Big', 'n.E.M1', 'E.m1', 'e.M1', '@s1.E.M1', '@s2.E.M1', 'E', 'E.M1.x', '@s1.n.E.Neg', 'M1', '.E.M1', 'E.M1 ', '@s1', '@E.M1']:
        g.add('id', schema([deepid(), bmsg('t', id=i)]))
        g.add('id', schema([ns('n', deepid()), bmsg('t', id=i)]))
        g.add('id', schema([deepid()]), schema([bmsg('t', id=i)], name='s2'), multi=True)
        g.add('id', schema([bmsg('t', id=i), deepid()]))
    # many messages: the listing
    for _ in range(g.n(900, 9000)):
        nu = r.random() < 0.6
        k = r.randrange(2, 9)
        docs, kids = [], [enum()]
        pairs = set()
        for i in range(k):
            big = r.random() < 0.3
            idv = r.choice(ids if big else ids[:8])
            m = bmsg('m%d' % i if r.random() < 0.5 else 'M%s%d' % (r.choice('abc'), i), id=idv if r.random() < 0.5 else str(i * 3 % 11))
            if r.random() < 0.6:
                m.set('order', str(r.randrange(0, 6)))
            if r.random() < 0.15:
                m.set('sinceVersion', str(r.randrange(0, 5)))
            kids.append(at(r.randrange(4) if r.random() < 0.7 else 0, m))
            if r.random() < 0.15:
                docs.append(schema(kids, nonUniqueMsgIdAllowed='true' if nu else None))
                kids = []
        if kids:
            docs.append(schema(kids, nonUniqueMsgIdAllowed='true' if nu else None))
        g.add('list', *docs)


# ---------------------------------------------------------------- P04

@gen
def P04(g):
    r = g.r
    target = lambda tag='': [f('int', 'I' + tag, f('special', 'S', val='3'), type='uint8', defaultValue='4'), f('enum', 'E' + tag, f('validValue', 'V', val='2'), type='uint8'),
                             f('set', 'B' + tag, f('bit', 'b', idx='1', defaultValue='true'), length='1'), f('string', 'T' + tag, defaultValue='txt'), f('data', 'D' + tag, defaultValue='0a0b'),
                             f('float', 'F' + tag, f('special', 'S', val='2.5'), type='float', defaultValue='1.5'),
                             f('bundle', 'U' + tag, f('int', 'x', f('special', 'Q', val='7'), type='uint8', defaultValue='5'), f('bundle', 'y', f('int', 'z', type='int16', defaultValue='-3')))]
    uses = {
        'ref': lambda p: f('ref', 't', field=p), 'reuse': lambda p: f('int', 't', reuse=p), 'reuseb': lambda p: f('bundle', 't', reuse=p), 'elem': lambda p: f('list', 't', element=p),
        'opt': lambda p: f('optional', 't', field=p), 'lenp': lambda p: f('string', 't', lengthPrefix=p), 'def': lambda p: f('int', 't', type='int32', defaultValue=p),
        'val': lambda p: f('enum', 't', f('validValue', 'K', val=p), type='int32'), 'flt': lambda p: f('float', 't', type='double', defaultValue=p),
        'str': lambda p: f('string', 't', defaultValue='^' + p), 'dat': lambda p: f('data', 't', defaultValue='^' + p), 'bit': lambda p: f('set', 't', length='1', defaultValue=p),
        'bitd': lambda p: f('set', 't', f('bit', 'c', idx='0', defaultValue=p), length='1'), 'desc': lambda p: f('int', 't', type='uint8', description='^' + p),
        'rng': lambda p: f('int', 't', type='int32', validRange='[%s, 100]' % p), 'var': lambda p: f('variant', 't', f('int', 'm', type='uint8'), f('int', 'k', type='uint8'), f('int', 'j', type='uint8'), defaultMember=p),
        'code': lambda p: f('int', 't', type='uint8', copyCodeFrom=p), 'term': lambda p: f('list', 't', f('int', 'e', type='uint8'), termSuffix=p), 'disp': lambda p: f('int', 't', type='uint8', displayName='^' + p),
        'enumdef': lambda p: f('enum', 't', f('validValue', 'K', val='2'), type='uint8', defaultValue=p), 'spec': lambda p: f('int', 't', f('special', 'K', val=p), type='int32'),
    }
    inner = ['I', 'I.S', 'E', 'E.V', 'B.b', 'B', 'T', 'D', 'F', 'F.S', 'U', 'U.x', 'U.x.Q', 'U.y', 'U.y.z', 'U.nope', 'I.nope', 'nope', 'i', 'I.s', 'U.X', 'E.v', 'u', 'b.b']
    # placement: (definitions, prefix of the path to them)
    def places(use):
        d, o = fields(*target()), fields(use)
        yield 'top', [schema([d, o])], ''
        yield 'later', [schema([o, d])], ''
        yield 'ns', [schema([ns('n', d), o])], 'n.'
        yield 'ns2', [schema([ns('n', ns('m', d)), o])], 'n.m.'
        yield 'inns', [schema([ns('n', d, o)])], 'n.'
        yield 'relative', [schema([ns('n', d, o)])], ''
        yield 'nsl', [schema([ns('n', o, d)])], 'n.'
        yield 'other', [schema([ns('n', fields(f('int', 'I', type='int8', defaultValue='-9'))), d, o])], ''
        yield 'shadow', [schema([fields(f('bundle', 'n', f('int', 'I', type='int8', defaultValue='-9'), f('int', 'U', type='int8'))), ns('n', d), o])], 'n.'
        yield 'file', [schema([d]), schema([o])], ''
        yield 'filel', [schema([o]), schema([d])], ''
        yield 'qual', [schema([d, o])], '@s1.'
        yield 'qualns', [schema([ns('n', d), o])], '@s1.n.'
        yield 'schema', [schema([d]), schema([o], name='s2')], '@s1.'
        yield 'schemans', [schema([ns('n', d)]), schema([o], name='s2')], '@s1.n.'
        yield 'schemax', [schema([d]), schema([o], name='s2')], ''
        yield 'schemal', [schema([o]), schema([d], name='s2')], '@s2.'
        yield 'schemaself', [schema([d]), schema([fields(*target()), o], name='s2')], '@s2.'
        yield 'back', [schema([fields(f('int', 'a', type='uint8'))]), schema([d], name='s2'), schema([fields(use)], name='s1')], '@s2.'
        yield 'empty', [schema([d, o])], '.'
        yield 'atnope', [schema([d, o])], '@nope.'
        yield 'at', [schema([d, o])], '@'
    combos = [(u, i, k) for u in uses for i in inner for k in range(22)]
    for u, i, k in g.some(combos, 2000, 12000):
        probe = list(places(uses[u]('x')))[k]
        what, docs, pre = list(places(uses[u](pre_path(probe[2], i))))[k]
        g.add(u + '-' + what, *docs, multi=len(docs) > 1)
    # messages and interfaces
    mu = {'copyFieldsFrom': lambda p: bmsg('t', copyFieldsFrom=p), 'reuse': lambda p: bmsg('t', reuse=p), 'code': lambda p: bmsg('t', copyCodeFrom=p), 'valid': lambda p: bmsg('t', f('int', 'a', type='uint8'), copyValidCondFrom=p),
          'iface': lambda p: f('interface', 't', copyFieldsFrom=p), 'ireuse': lambda p: f('interface', 't', reuse=p), 'id': lambda p: bmsg('t', id=p)}
    tm = lambda: [fields(f('bundle', 'U', f('int', 'a', type='uint8'), validCond='$a = 1'), f('enum', 'E', f('validValue', 'M', val='9'), type='uint8')), bmsg('M', f('fields', None, f('int', 'a', type='uint8')), id='90', validCond='$a = 3'),
                  f('interface', 'N', f('int', 'v', type='uint8'))]
    for u in mu:
        for p in ['M', 'N', 'U', 'E', 'E.M', 'nope', 'm', '', 'U.a', 'M.a', 'u', '.M', 'M.']:
            for k in range(8):
                pre = ['', 'n.', '@s1.', '@s1.n.', '', 'n.', '@s2.', 'n.m.'][k]
                x = mu[u](pre + p)
                docs = [lambda: [schema(tm() + [x])], lambda: [schema([ns('n', *tm()), x])], lambda: [schema(tm()), schema([x], name='s2')], lambda: [schema([ns('n', *tm())]), schema([x], name='s2')],
                        lambda: [schema([x] + tm())], lambda: [schema([ns('n', x, *tm())])], lambda: [schema([x]), schema(tm(), name='s2')], lambda: [schema([ns('n', ns('m', *tm())), ns('n', x)])]][k]()
                g.add(u, *docs, multi=len(docs) > 1)
    for p in NUMREFS:
        for u in uses:
            if r.random() < g.n(0.3, 1):
                g.field('pool', uses[u](p))


def pre_path(pre, i):
    return pre + i


# ---------------------------------------------------------------- P05

def vset(e, s, d, rem):
    for k, v in (('sinceVersion', s), ('deprecated', d), ('removed', rem)):
        if v is not None:
            e.set(k, v)
    return e


@gen
def P05(g):
    r = g.r
    S, D, R = [None, '0', '1', '2', '3', '5', '6'], [None, '0', '2', '3', '4', '5', '6'], [None, 'true', 'false']
    def leaf(k, s, d, rem):
        if k == 'bit':
            return f('set', 'x', vset(f('bit', 'v', idx='1'), s, d, None), length='1')
        if k == 'value':
            return f('enum', 'x', vset(f('validValue', 'v', val='1'), s, d, None), type='uint8')
        if k == 'special':
            return f('int', 'x', vset(f('special', 'v', val='1'), s, d, None), type='uint8')
        if k == 'fspecial':
            return f('float', 'x', vset(f('special', 'v', val='1'), s, d, None), type='float')
        if k == 'range':
            return f('int', 'x', vset(E('validRange', {'value': '[0, 5]'}), s, d, None), type='uint8')
        if k == 'validValue':
            return f('int', 'x', vset(E(r.choice(['validValue', 'validMin', 'validMax']), {'value': '5'}), s, d, None), type='uint8')
        if k == 'frange':
            return f('float', 'x', vset(E(r.choice(['validRange', 'validRange']), {'value': '[0, 5]'}), s, d, None), type='float')
        if k == 'text':
            return f('string', 'x', vset(E('validValue', {'value': 'q'}), s, d, None))
        if k == 'bytes':
            return f('data', 'x', vset(E('validValue', {'value': '0a'}), s, d, None))
        if k == 'member':
            return f('bundle', 'x', f('int', 'z', type='uint8'), vset(f('int', 'v', type='uint8'), s, d, rem))
        if k == 'vmember':
            return f('variant', 'x', f('int', 'z', type='uint8'), vset(f('int', 'v', type='uint8'), s, d, rem))
        if k == 'bitm':
            return f('bitfield', 'x', f('int', 'z', type='uint8', bitLength='4'), vset(f('int', 'v', type='uint8', bitLength='4'), s, d, rem))
        if k == 'elem':
            return f('list', 'x', vset(f('int', 'v', type='uint8'), s, d, rem))
        if k == 'opt':
            return f('optional', 'x', vset(f('int', 'v', type='uint8'), s, d, rem))
        if k == 'prefix':
            return f('string', 'x', E('lengthPrefix', None, [vset(f('int', 'v', type='uint8'), s, d, rem)]))
        if k == 'deep':
            return f('bundle', 'x', f('int', 'z', type='uint8'), f('bundle', 'y', f('int', 'w', type='uint8'), f('set', 'q', vset(f('bit', 'v', idx='0'), s, d, None), length='1')))
        return vset(f('int', 'x', type='uint8'), s, d, rem)
    leaves = ['field', 'bit', 'value', 'special', 'fspecial', 'range', 'validValue', 'frange', 'text', 'bytes', 'member', 'vmember', 'bitm', 'elem', 'opt', 'prefix', 'deep']
    # message versions x field versions
    for a in g.some(list(itertools.product(S, D, R, S, D, R)), 500, 5000):
        g.add('msg', schema([vset(bmsg('t', f('int', 'k', type='uint8'), vset(f('int', 'v', type='uint8'), *a[3:])), *a[:3])]))
    for a in itertools.product(S, D, R):
        g.add('msg1', schema([vset(bmsg('t', f('int', 'k', type='uint8')), *a)]))
        g.add('glob', schema([fields(vset(f('int', 'k', type='uint8'), *a))]))
        g.add('nover', schema([vset(bmsg('t', vset(f('int', 'k', type='uint8'), *a)), '1', None, None)], version=None))
    # field versions x leaf versions, inside of a message with versions
    small = [('2', None, None), ('2', '5', 'true'), ('3', '4', None), (None, None, None), ('1', '4', 'true')]
    combos = [(k, m, c, l) for k in leaves for m in small for c in [(None, None, None), ('2', '4', None), ('3', None, None), ('3', '5', 'true'), ('1', None, None)] for l in itertools.product(S, D, [None, 'true'])]
    for k, m, c, l in g.some(combos, 1300, 18000):
        x = leaf(k, *l)
        if k != 'field':
            vset(x, *c)
        g.add(k, schema([vset(bmsg('t', f('int', 'k', type='uint8'), x), *m)]))
    for k in leaves:
        for l in g.some(list(itertools.product(S, D, [None, 'true'])), 14, 200):
            g.field('g-' + k, leaf(k, *l))
            g.add('i-' + k, schema([f('interface', 't', leaf(k, *l))]))
    # reuse and copying
    for _ in range(g.n(400, 6000)):
        v = lambda e: vset(e, r.choice(S[:6]), r.choice(D[:6]), r.choice(R))
        ms = [f('int', 'k', type='uint8')] + [v(f(r.choice(['int', 'enum', 'set']), 'm%d' % i)) for i in range(2)]
        for m in ms[1:]:
            if m.t == 'int':
                m.set('type', 'uint16')
                m.c = [v(f('special', 'sp', val='1'))] if r.random() < 0.5 else []
            elif m.t == 'enum':
                m.set('type', 'uint8').c = [v(f('validValue', 'A', val='1')), f('validValue', 'B', val='2')]
            else:
                m.set('length', '1').c = [v(f('bit', 'A', idx='1'))]
            for x in m.c:
                x.a = [(p, q) for p, q in x.a if p != 'removed']
        b = f('bundle', 'B', *ms)
        how = r.randrange(6)
        if how == 0:
            g.add('reuse', schema([fields(b), v(bmsg('t', f('fields', None, f('int', 'k', type='uint8'), v(f('bundle', 'x', reuse='B')))))]))
        elif how == 1:
            g.add('ref', schema([fields(b), v(bmsg('t', f('fields', None, f('int', 'k', type='uint8'), v(f('ref', 'x', field='B')))))]))
        elif how == 2:
            g.add('copy', schema([fields(b), v(bmsg('t', copyFieldsFrom='B'))]))
        elif how == 3:
            g.add('copym', schema([v(bmsg('s', *ms, id='1')), v(bmsg('t', copyFieldsFrom='s', id='2'))]))
        elif how == 4:
            g.add('reusem', schema([v(bmsg('s', *ms, id='1')), v(bmsg('t', reuse='s', id='2'))]))
        else:
            x = f('enum', 'x', f('validValue', 'C', val='7'), reuse='B.m1')
            ms[1] = f('enum', 'm1', v(f('validValue', 'A', val='1')), type='uint8')
            ms[1].c[0].a = [(p, q) for p, q in ms[1].c[0].a if p != 'removed']
            x.set('reuse', 'G')
            g.add('reusee', schema([fields(ms[1].clone().set('name', 'G')), v(bmsg('t', f('int', 'k', type='uint8'), v(x)))]))
    for _ in range(g.n(300, 6000)):
        g.add('rand', doc(rmsg(r, 't', rich=0.3)))


# ---------------------------------------------------------------- P06

FEATURES = None


def features():
    """definitions which use something that did not exist in the first DSL version"""
    ms = lambda: f('fields', None, f('int', 'a', type='uint8'), f('set', 'b', f('bit', 'x', idx='0'), length='1'), f('string', 's'), f('optional', 'o', f('int', 'in', type='uint8')))
    i8 = lambda n='x', **a: f('int', n, type='uint8', **a)
    yield from [('fld', x) for x in (
        i8(validateMinLength='1'), i8(validateMinLength='2'), i8(defaultValidValue='5'), i8(availableLengthLimit='true'), i8(copyCodeFrom='p.I'), i8(reuseCode='true'), f('int', 'x', reuse='p.I', reuseCode='true'),
        i8(fixedValue='true'), i8(displayName='N'), i8(displayReadOnly='true'), i8(displayHidden='true'), f('int', 'x', type='uint8', displaySpecials='true'), i8(forceGen='true'), i8(failOnInvalid='true'),
        i8(valueOverride='replace'), i8(pseudo='true'), i8(customizable='true'), i8(nonUniqueSpecialsAllowed='true'), f('int', 'x', f('special', 'A', val='1'), f('special', 'B', val='1'), type='uint8'),
        f('int', 'x', f('special', 'A', val='1', displayName='D'), type='uint8'), f('enum', 'x', f('validValue', 'A', val='1', displayName='D'), type='uint8'), f('set', 'x', f('bit', 'A', idx='1', displayName='D'), length='1'),
        f('list', 'x', i8('e'), termSuffix='p.I'), f('list', 'x', E('element', None, [i8('e')]), E('termSuffix', None, [i8('q')])), f('list', 'x', i8('e'), elemFixedLength='true', elemLengthPrefix='p.I'),
        f('optional', 'x', i8('e'), missingOnReadFail='true'), f('optional', 'x', i8('e'), missingOnInvalid='true'), f('optional', 'x', i8('e'), displayExtModeCtrl='true'),
        f('variant', 'x', i8('e'), displayIdxReadOnlyHidden='true'), f('variant', 'x', i8('e')), f('bundle', 'x', E('members', None, [i8('e')]), E('alias', {'name': 'al', 'field': '$e'})),
        f('bundle', 'x', reuse='p.Bu', reuseAliases='false'), f('bundle', 'x', E('replace', None, [i8('m1')]), reuse='p.Bu'), f('bitfield', 'x', E('replace', None, [f('int', 'lo', type='uint8', bitLength='3')]), reuse='p.Bf'),
        f('int', 'x', E('replace', None, [i8('m1')]), reuse='p.I'), f('bundle', 'x', i8('e'), validCond='$e = 1'), f('bundle', 'x', E('members', None, [i8('e')]), E('validCond', None, [E('and', None, [E('validCond', {'value': '$e = 1'}), E('validCond', {'value': '$e != 3'})])])),
        f('bundle', 'x', i8('m1'), copyValidCondFrom='p.Bu'), f('bitfield', 'x', i8('e', bitLength='8'), validCond='$e = 1'), f('bundle', 'x', i8('e'), f('optional', 'o', i8('in'), cond='$?e')),
        f('bundle', 'x', f('string', 's'), f('optional', 'o', i8('in'), cond='$#s = 1')), f('bundle', 'x', f('string', 's'), f('optional', 'o', i8('in'), cond='$s = abc')), f('bundle', 'x', f('optional', 'k', i8('in')), f('optional', 'o', i8('in'), cond='$?k')),
        f('bundle', 'x', i8('e'), f('optional', 'o', i8('in'), cond='%flags.fa')), f('bundle', 'x', f('set', 'e', f('bit', 'q', idx='0'), length='1'), f('optional', 'o', i8('in'), cond='$e.q')),
        f('bundle', 'x', i8('e'), f('optional', 'o', i8('in'), cond='$e = $e')), f('string', 'x', f('bundle', 'dummy') if False else E('lengthPrefix', None, [f('bundle', 'l', i8('k', semanticType='length'))])), f('string', 'x', E('lengthPrefix', None, [f('bundle', 'l', i8('k'), semanticType='length')])),
        f('list', 'x', i8('e'), E('countPrefix', None, [f('bundle', 'l', i8('k'), semanticType='length')])) if False else f('list', 'x', E('element', None, [i8('e')]), E('countPrefix', None, [f('bundle', 'l', i8('k'), semanticType='length')])),
        f('ref', 'x', field='p.I', bitLength='3'), f('ref', 'x', field='p.Bu.m1'), f('int', 'x', type='uint8', signExt='false'), f('int', 'x', type='intvar'), f('enum', 'x', f('validValue', 'A', val='p.En.V2'), type='uint8'),
        f('string', 'x', defaultValue='^p.Str'), f('data', 'x', defaultValue='^p.Da'), f('int', 'x', type='uint8', description='^p.Str'), f('data', 'x', defaultValidValue='0a'), f('string', 'x', defaultValidValue='q'),
        f('float', 'x', f('special', 'A', val='1'), type='float'), f('float', 'x', type='float', nonUniqueSpecialsAllowed='true'), f('string', 'x', validValue='q'), f('set', 'x', length='1', availableLengthLimit='true'),
        f('enum', 'x', f('validValue', 'A', val='1'), type='uint8', availableLengthLimit='true'), f('enum', 'x', f('validValue', 'A', val='1'), type='uint8', hexAssign='true'), f('set', 'x', type='uint8'), i8(semanticType='length'), i8(semanticType='messageId'), i8(readOverride='extend'),
        f('bitfield', 'x', f('ref', 'e', field='p.I', bitLength='8')), f('enum', 'x', reuse='p.En'), f('int', 'x', reuse='p.I'), i8(unknownProp='1'), f('int', 'x', E('unknownElem', None), type='uint8'))]
    yield from [('msg', x) for x in (
        bmsg('t', ms(), validateMinLength='2'), bmsg('t', ms(), copyCodeFrom='p.MA'), bmsg('t', ms(), construct='%flags.fa'), bmsg('t', ms(), readCond='%flags.fa'), bmsg('t', ms(), validCond='$a = 1'), bmsg('t', ms(), validCond='%flags.fa'), bmsg('t', ms(), construct='%flags.fa', constructAsReadCond='true'),
        bmsg('t', ms(), construct='%flags.fa', constructAsValidCond='true'), bmsg('t', ms(), constructAsValidCond='true'), bmsg('t', ms(), copyConstructFrom='p.MA'), bmsg('t', ms(), copyReadCondFrom='p.MA'), bmsg('t', f('fields', None, i8('a')), copyValidCondFrom='p.MA'),
        bmsg('t', reuse='p.MA'), bmsg('t', reuse='p.MA', reuseCode='true'), bmsg('t', reuse='p.MA', reuseAliases='false'), bmsg('t', copyFieldsFrom='p.MA'), bmsg('t', copyFieldsFrom='p.Bu'), bmsg('t', copyFieldsFrom='p.MA', copyFieldsAliases='true'),
        bmsg('t', copyFieldsFrom='p.MA', copyFieldsAliases='false'), bmsg('t', E('replace', None, [i8('a')]), copyFieldsFrom='p.MA'), bmsg('t', ms(), E('alias', {'name': 'al', 'field': '$a'})), bmsg('t', ms(), failOnInvalid='true'), bmsg('t', ms(), customizable='true'), bmsg('t', ms(), nameOverride='replace'),
        bmsg('t', ms(), E('construct', None, [E('and', None, [E('construct', {'value': '%flags.fa'}), E('construct', {'value': '%ver = 3'})])])), bmsg('t', ms(), E('validCond', None, [E('or', None, [E('validCond', {'value': '$a = 1'}), E('validCond', {'value': '$b.x'})])])),
        bmsg('t', f('fields', None, i8('a'), f('optional', 'o', i8('in'), cond='%flags.fb'))), bmsg('t', f('fields', None, i8('a', displayName='q'), f('string', 'l', lengthPrefix='$a'))), bmsg('t', ms(), sender='client'), bmsg('t', ms(), platforms='+Lin'), bmsg('t', ms(), order='1'),
        bmsg('t', ms(), displayName='^p.Str'), bmsg('t', ms(), sinceVersion='1', deprecated='2', removed='true'), bmsg('t', ms(), validOverride='extend'), bmsg('t', ms(), unknownProp='1'))]
    yield from [('if', x) for x in (f('interface', 't', copyFieldsFrom='p.IA'), f('interface', 't', copyFieldsFrom='p.Bu'), f('interface', 't', copyFieldsFrom='p.IA', copyFieldsAliases='true'), f('interface', 't', reuse='p.IA'), f('interface', 't', reuse='p.IA', reuseCode='true'),
                                    f('interface', 't', reuse='p.IA', reuseAliases='false'), f('interface', 't', E('fields', None, [i8('a')]), E('alias', {'name': 'al', 'field': '$a'})), f('interface', 't', i8('a', semanticType='version')))]
    yield from [('fr', x) for x in (
        frame('t', [layer('custom', 'a', semanticLayerType='id'), layer('payload', 'data')]), frame('t', [layer('custom', 'a', idReplacement='true'), layer('payload', 'data')]), frame('t', [layer('sync', 'a', seekField='true'), layer('payload', 'data')]),
        frame('t', [layer('custom', 'a'), layer('payload', 'data'), layer('custom', 'c', semanticLayerType='checksum', checksumFrom='a')]), frame('t', [layer('custom', 'c', semanticLayerType='checksum', checksumUntil='data'), layer('payload', 'data')]),
        frame('t', [layer('sync', 'a'), layer('payload', 'data'), layer('sync', 'b')]), frame('t', [layer('sync', 'a', field='p.I', seekField='true', escField='p.I'), layer('payload', 'data')]), frame('t', [layer('sync', 'a', field='p.I', escField='p.I'), layer('payload', 'data')]),
        frame('t', [layer('size', 'a'), layer('payload', 'data'), layer('sync', 'b', verifyBeforeRead='true', **{'from': 'a'})]), frame('t', [layer('size', 'a'), layer('payload', 'data'), layer('sync', 'b', seekField='true', **{'from': 'a'})]),
        frame('t', [layer('size', 'a'), layer('payload', 'data'), layer('sync', 'b', verifyBeforeRead='true')]), frame('t', [layer('size', 'a', displayName='S'), layer('payload', 'data')]), frame('t', [layer('size', 'a'), layer('payload', 'data')]).set('displayName', 'F'),
        frame('t', [layer('value', 'v'), layer('payload', 'data')]), frame('t', [layer('value', 'v', interfaces='p.IA', pseudo='true'), layer('payload', 'data')]), frame('t', [layer('size', 'a'), layer('payload', 'data'), layer('checksum', 'c', **{'from': 'a', 'verifyBeforeRead': 'true'})]))]
    yield from [('sch', schema([fields(i8())], displayName='x')), ('sch', schema([ns('n', fields(i8())).set('displayName', 'd')])), ('sch', schema([bmsg('t', id='1'), bmsg('u', id='1', order='1')], nonUniqueMsgIdAllowed='true')),
                ('sch', schema([platforms(), bmsg('t', id='1', platforms='-Lin')]))]


def fdoc(kind, e, **a):
    if kind == 'sch':
        e = e.clone()
        for k, v in a.items():
            e.set(k, v)
        return e
    if kind == 'fld':
        return doc(fields(e), **a)
    if kind == 'fr':
        return frame_doc(e, **a)
    return doc(e, **a)


@gen
def P06(g):
    r = g.r
    fs = list(features())
    vers = [None] + [str(i) for i in range(0, 9)]
    for kind, e in fs:
        for v in vers:
            g.add(kind, fdoc(kind, e.clone(), dslVersion=v))
        if g.deep or r.random() < 0.25:       # inside something else
            for v in vers[2:]:
                if kind == 'fld':
                    g.add('in', doc(bmsg('t', f('fields', None, e.clone())), dslVersion=v))
                    g.add('in', doc(fields(f('bundle', 'u', e.clone())), dslVersion=v))
    for v in vers + ['9', '10', '-1', 'x']:
        for multi in (False, True):
            a = schema([fields(f('int', 'I', type='uint8'))], dslVersion=v)
            g.add('multi', a, schema([fields(f('ref', 'J', field='@s1.I'))], name='s2', dslVersion=v), multi=multi)
            g.add('multi', a, schema([fields(f('int', 'J', type='uint8'))], dslVersion=v), multi=multi)
    singles_ = []
    for k in KINDS:
        singles_ += [('fld', e) for e in singles(k)]
    singles_ += [('msg', e) for e in msg_singles()] + [('if', e) for e in iface_singles()] + [('fr', e) for e in frame_singles()]
    for kind, e in g.some(singles_, 900):
        for v in (r.sample(vers[1:], 1) if not g.deep else r.sample(vers[1:], 3)):
            g.add('s', fdoc(kind, e.clone(), dslVersion=v))
    for _ in range(g.n(300, 5000)):
        v = r.choice(vers[1:])
        k = r.random()
        if k < 0.5:
            g.add('r', fdoc('fld', rfield(r, 't', 2), dslVersion=v))
        elif k < 0.85:
            g.add('r', fdoc('msg', rmsg(r, 't'), dslVersion=v))
        else:
            g.add('r', fdoc('fr', rframe(r, 't'), dslVersion=v))


# ---------------------------------------------------------------- P07

def bounds(t, ln):
    lo, hi = limits(t, ln)
    return sorted({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, -1, lo // 2, hi // 2, (hi + 1) // 2 * 2, -(1 << 63), (1 << 63) - 1, 1 << 63, (1 << 64) - 1})


@gen
def P07(g):
    r = g.r
    for e in g.some(singles('int'), 700):
        g.field('single', e)
    sizes = {'8': 1, '16': 2, '32': 4, '64': 8, 'var': 10}
    cases = []
    for t in INTTYPES:
        for ln in [None] + list(range(1, sizes[t.replace('uint', '').replace('int', '')] + 2)):
            for v in bounds(t, ln if ln and ln <= 10 else None):
                for p in ('defaultValue', 'special', 'validValue', 'validMin', 'validMax', 'lo', 'hi', 'serOffset', 'displayOffset'):
                    cases.append((t, ln, v, p))
    for t, ln, v, p in g.some(cases, 1100):
        e = f('int', 't', type=t)
        if ln:
            e.set('length', ln)
        fmt = lambda x: ('0x%x' % x if x >= 0 and r.random() < 0.2 else str(x))
        if p == 'special':
            e.c.append(f('special', 'S', val=fmt(v)))
        elif p == 'lo':
            e.c.append(E('validRange', {'value': '[%s, %s]' % (fmt(v), fmt(v + 2))}))
        elif p == 'hi':
            e.c.append(E('validRange', {'value': '[%s, %s]' % (fmt(v - 2), fmt(v))}))
        elif p[:5] == 'valid':
            apply(e, p, fmt(v), r.random() < 0.5)
        else:
            e.set(p, fmt(v))
        if p == 'serOffset' and r.random() < 0.5:
            e.set('defaultValue', r.choice(['0', '1', '100']))
        g.field('bound', e)
    for b in range(1, 65):
        for t in ('int8', 'uint8', 'uint16', 'int32', 'int64', 'uint64'):
            if r.random() > g.n(0.4, 1):
                continue
            lo, hi = (0, (1 << b) - 1) if t[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            v = r.choice([lo, hi, lo - 1, hi + 1])
            pad = f('set', 'p', bitLength=(8 - b % 8) % 8) if b % 8 else None
            m = f('int', 'm', type=t, bitLength=b, defaultValue=v)
            g.field('bits', f('bitfield', 't', *([m, pad] if pad else [m])))
    # valid ranges: merging
    for _ in range(g.n(900, 16000)):
        t = r.choice(INTTYPES)
        lo, hi = limits(t)
        base_ = r.choice([0, 0, 0, lo, hi - 12, hi // 2, lo // 2, (1 << 63) - 6 if hi >= 1 << 63 else hi - 12])
        e = f('int', 't', type=t)
        for _ in range(r.randrange(2, 6)):
            a = max(lo, min(hi, base_ + r.randrange(0, 14)))
            b = max(lo, min(hi, a + r.choice([0, 0, 1, 2, 5])))
            x = E('validRange', {'value': '[%d, %d]' % (a, b)}) if r.random() < 0.75 else E(r.choice(['validValue', 'validMin', 'validMax']), {'value': str(a)})
            if r.random() < 0.35:
                x.set('sinceVersion', r.choice('123'))
            if r.random() < 0.25:
                x.set('deprecated', r.choice('2345'))
            e.c.append(x)
        if r.random() < 0.3:
            e.set('defaultValidValue', str(max(lo, min(hi, base_ + r.randrange(14)))))
        if r.random() < 0.2:
            e.set('validCheckVersion', 'true')
        g.add('ranges', schema([bmsg('t', f('fields', None, e))]) if r.random() < 0.6 else with_prelude(fields(e)))
    for _ in range(g.n(900, 14000)):
        es = [rint(r, 't%d' % i) for i in range(r.randrange(1, 3))]
        if r.random() < 0.25:
            es.append(f('int', 'u', *[f('special', 'N%d' % i, val=str(r.randrange(20))) for i in range(r.randrange(2))], reuse='t0'))
            rprops(r, es[-1], 0.15, 0.85, {k: v for k, v in KIND['int'].items() if k not in ('bitLength',)})
        g.field('rand', *es)


# ---------------------------------------------------------------- P08

@gen
def P08(g):
    r = g.r
    for k in ('enum', 'set'):
        for e in g.some(singles(k), 450):
            g.field('single', e)
    sizes = {'8': 1, '16': 2, '32': 4, '64': 8, 'var': 10}
    cases = [(t, ln, v) for t in INTTYPES for ln in [None] + list(range(1, sizes[t.replace('uint', '').replace('int', '')] + 1)) for v in bounds(t, ln)]
    for t, ln, v in g.some(cases, 450):
        e = f('enum', 't', f('validValue', 'V', val=str(v)), f('validValue', 'W', val=str(r.choice([0, v, 1]))), type=t)
        if ln:
            e.set('length', ln)
        if r.random() < 0.3:
            e.set('nonUniqueAllowed', 'true')
        if r.random() < 0.4:
            e.set('defaultValue', r.choice(['V', 'W', str(v), '5']))
        g.field('ebound', e)
    for idx in range(-1, 66):
        for t, ln in (('uint8', None), ('uint16', None), ('uint32', None), ('uint64', None), (None, 1), (None, 3), (None, 4), (None, 8), ('uint32', 3), ('uint64', 5), ('uintvar', 2)):
            if (t, ln) != (None, 8) and r.random() > g.n(0.25, 1):
                continue
            e = f('set', 't', f('bit', 'b', idx=str(idx)))
            if t:
                e.set('type', t)
            if ln:
                e.set('length', ln)
            if r.random() < 0.3:
                e.set('defaultValue', 'true')
            if r.random() < 0.3:
                e.set('reservedValue', 'true')
            g.field('sbound', e)
    for _ in range(g.n(1300, 24000)):
        k = r.choice(['enum', 'set'])
        e = renum(r, 't') if k == 'enum' else rset(r, 't')
        if r.random() < 0.3:      # dense values, many duplicates
            for c in e.c:
                if c.get('val'):
                    c.set('val', str(r.randrange(4)))
                if c.get('idx'):
                    c.set('idx', str(r.randrange(4)))
                if r.random() < 0.2:
                    c.set('reserved', r.choice(['true', 'false']))
        es = [e]
        for n in range(r.choice([0, 0, 0, 1, 1, 2])):
            x = f(k, 'u%d' % n, reuse='t' if n == 0 else 'u%d' % (n - 1))
            for i in range(r.randrange(0, 3)):
                nm = r.choice(['V0', 'B0', 'X%d' % i, 'v0'])
                x.c.append(rver(r, f('validValue', nm, val=str(r.randrange(8))) if k == 'enum' else f('bit', nm, idx=str(r.randrange(8)))))
            for p in ('nonUniqueAllowed', 'defaultValue', 'reservedValue', 'length', 'type', 'endian', 'validCheckVersion', 'hexAssign'):
                if p in KIND[k] and r.random() < 0.15:
                    x.set(p, r.choice(KIND[k][p][:5]))
            es.append(x)
        g.field('rand', *es) if r.random() < 0.7 else g.add('rand', doc(bmsg('m', f('fields', None, *es[:1]), sinceVersion='1')))
    vers = [(a, b) for a in (None, '1', '2', '3') for b in (None, '2', '3', '4') if b is None or a is None or a < b]
    both = [(x, y, q) for x in vers for y in vers for q in ('', 'defaultValue', 'reserved', 'reservedValue')]
    for x, y, q in g.some(both, 420):      # bits of one index, present in different versions
        e = f('set', 't', length='1', nonUniqueAllowed='true')
        for n, v in (('a', x), ('b', y)):
            b = f('bit', n, idx='1')
            if q and n == 'a':
                b.set(q, 'true')
            elif q and r.random() < 0.5:
                b.set(q, 'false')
            for k, w in zip(('sinceVersion', 'deprecated'), v):
                if w:
                    b.set(k, w)
            e.c.append(b)
        g.add('versions', schema([bmsg('t', f('fields', None, e))]))
    for _ in range(g.n(300, 4000)):      # inside of bitfields
        g.field('bits', f('bitfield', 't', *[renum(r, 'e', n) if r.random() < 0.5 else rset(r, 's', n) for n in [r.randrange(1, 9)]], f('set', 'rest', bitLength=str(8 - 0)) if False else f('int', 'rest', type='uint64', bitLength='8')))
        b = r.randrange(1, 17)
        g.field('bits', f('bitfield', 't', renum(r, 'e', b) if r.random() < 0.5 else rset(r, 's', b), f('int', 'rest', type='uint16', bitLength=str((-b) % 8 or 8))))


# ---------------------------------------------------------------- P18

@gen
def P18(g):
    r = g.r
    for e in g.some(singles('float'), 400):
        g.field('single', e)
    vals = FPVALS + ['3.4028234663852886e+38', '-3.4028234663852886e+38', '3.4028234663852887e+38', '3.402823466385289e38', '1.7976931348623157e308', '-1.7976931348623157e308', '1.8e308', '4.9e-324', '1e-324', '1e-45', '0.30000000000000004',
                     '-0.0', '-0', '+0', '1.', '.5', '1e5', '-1E-5', '0x1.8p1', 'infinity', '-Infinity', 'nan(1)', '-nan', '1e', '1_000', '1,5', ' 1', '1 ', '16777216', '16777217', '9007199254740993']
    for v in vals:
        for t in ('float', 'double'):
            for p in ('defaultValue', 'validValue', 'validMin', 'validMax'):
                e = f('float', 't', type=t)
                apply(e, p, v, r.random() < 0.5)
                g.field('val', e)
            g.field('val', f('float', 't', f('special', 'S', val=v), type=t, defaultValue='S'))
            g.field('val', f('float', 't', type=t, validRange='[%s, %s]' % (v, r.choice(vals))))
            g.field('val', f('float', 't', type=t, validRange='[%s, %s]' % (r.choice(vals), v)))
    for _ in range(g.n(1500, 26000)):
        if r.random() < 0.5:
            e = rfloat(r, 't')
        else:        # ranges
            e = f('float', 't', type=r.choice(['float', 'double']))
            for _ in range(r.randrange(1, 6)):
                a, b = r.randrange(-4, 8) / 2, r.choice([0, 0.5, 1, 3])
                x = E('validRange', {'value': '[%s, %s]' % (a, a + b)})
                if r.random() < 0.2:
                    x = E(r.choice(['validValue', 'validMin', 'validMax']), {'value': r.choice([str(a), 'nan', 'inf', '-inf'])})
                if r.random() < 0.06:
                    x = E('validFullRange', {'value': r.choice(['true', 'false'])})
                if r.random() < 0.35:
                    x.set('sinceVersion', r.choice('123'))
                if r.random() < 0.25:
                    x.set('deprecated', r.choice('2345'))
                e.c.append(x)
        es = [e]
        if r.random() < 0.3:
            x = f('float', 'u', reuse='t')
            if r.random() < 0.5:
                x.c.append(f('special', r.choice(['S0', 'N']), val=r.choice(vals)))
            rprops(r, x, 0.15, 0.85, KIND['float'])
            es.append(x)
        g.field('rand', *es) if r.random() < 0.6 else g.add('rand', doc(bmsg('m', f('fields', None, *es[:1]))))


# ---------------------------------------------------------------- P09

@gen
def P09(g):
    r = g.r
    def vml(e, p=0.3):
        if r.random() < p:
            e.set('validateMinLength', str(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10])))
        return e
    def intpf():
        t = r.choice(['uint8', 'uint16', 'uint32', 'uint64', 'uintvar', 'uintvar', 'int8', 'int16', 'intvar'])
        e = f('int', 'pf', type=t)
        if r.random() < 0.6:
            e.set('length', str(r.randrange(1, {'8': 1, '6': 2, '2': 4, '4': 8, 'r': 5}[t[-1]] + 1)))
        return e
    leaf = lambda n: r.choice([lambda: f('int', n, type=r.choice(INTTYPES)), lambda: f('int', n, type='uint64', length=str(r.randrange(1, 9))), lambda: f(r.choice(['string', 'data']), n, E('lengthPrefix', None, [intpf()])), lambda: f('float', n, type=r.choice(['float', 'double'])),
                               lambda: f('set', n, length=str(r.randrange(1, 9))), lambda: f('enum', n, f('validValue', 'V', val='1'), type=r.choice(INTTYPES)), lambda: f('string', n), lambda: f('string', n, length=str(r.choice([1, 4, 100, 4294967295]))),
                               lambda: f('string', n, zeroTermSuffix='true'), lambda: f('string', n, lengthPrefix=r.choice(['p.I', 'p.Len', 'p.Big'])), lambda: f('data', n, lengthPrefix=r.choice(['p.I', 'p.Len', 'p.Big', 'p.Re'])),
                               lambda: f('data', n, length=str(r.choice([1, 7]))), lambda: f('ref', n, field=r.choice(['p.I', 'p.Bu', 'p.Str', 'p.Li', 'p.Op', 'p.Va', 'p.Bf', 'p.Zs'])), lambda: rbitfield(r, n)])()
    def comp(n, d):
        k = r.random()
        if d == 0 or k < 0.3:
            return leaf(n)
        if k < 0.5:
            e = f('bundle', n, *[vml(rver(r, comp('m%d' % i, d - 1), 0.15), 0.05) for i in range(r.randrange(1, 4))])
        elif k < 0.62:
            e = f('variant', n, *[rver(r, comp('m%d' % i, d - 1), 0.1) for i in range(r.randrange(1, 4))])
        elif k < 0.74:
            e = f('optional', n, comp('in', d - 1))
            if r.random() < 0.5:
                e.set('defaultMode', r.choice(['exists', 'missing', 'tentative']))
        else:
            e = f('list', n, E('element', None, [comp('el', d - 1)]))
            k = r.random()
            pf = lambda p: e.c.append(E(p, None, [r.choice([intpf(), intpf(), f('bundle', 'pf', f('int', 'a', type='uint8', semanticType='length'), f('int', 'b', type='uint16'))])]))
            if k < 0.3:
                e.set('count', str(r.choice([1, 2, 5, 1000, 4294967295])))
            elif k < 0.5:
                pf('countPrefix')
            elif k < 0.65:
                pf('lengthPrefix')
            elif k < 0.75:
                e.c.append(E('termSuffix', None, [f('int', 'ts', type=r.choice(['uint8', 'uint32']))]))
            if r.random() < 0.3:
                pf('elemLengthPrefix')
                if r.random() < 0.5:
                    e.set('elemFixedLength', 'true')
        return e
    for k in KINDS:
        for v in ('0', '1', '2', '3', '4', '5'):
            g.field('vml', base(k, 't').set('validateMinLength', v))
            if KIND.get(k) is not None and k in REUSE:
                g.field('vml', f(k, 't', reuse=REUSE[k][0], validateMinLength=v))
    for i in range(g.n(1300, 22000)):
        g.field('field', vml(comp('t', 3), 0.35))
    for i in range(g.n(1000, 16000)):
        m = vml(rver(r, bmsg('t', f('fields', None, *[rver(r, comp('m%d' % i, 2), 0.25) for i in range(r.randrange(0, 5))])), 0.3), 0.4)
        if r.random() < 0.15:
            m = vml(rver(r, bmsg('t', **{r.choice(['copyFieldsFrom', 'reuse']): 'p.MA'}), 0.3), 0.7)
            if r.random() < 0.5:
                m.c = [E('replace', None, [comp('d', 2)])]
            elif r.random() < 0.5:
                m.c = [f('fields', None, comp('n1', 2))]
        g.add('msg', doc(m))
    for i in range(g.n(250, 4000)):     # unbounded parts everywhere
        big = lambda n: f('list', n, E('element', None, [f('string', 's', length='4294967295')]), count='4294967295')
        e = comp('t', 2)
        g.field('sat', f('bundle', 't', big('b1'), *([big('b2')] if r.random() < 0.6 else []), e.set('name', 'e')) if r.random() < 0.5 else f('list', 't', E('element', None, [e]), count='4294967295'))


# ---------------------------------------------------------------- P10

@gen
def P10(g):
    r = g.r
    for k in ('string', 'data', 'list'):
        for e in g.some(singles(k), 300):
            g.field('single', e)
    pk = lambda n='pf': [f('int', n, type='uint8'), f('int', n, type='int8'), f('int', n, type='uintvar'), f('int', n, type='uint16', semanticType='length'), f('enum', n, f('validValue', 'A', val='1'), type='uint8'),
                         f('bundle', n, f('int', 'a', type='uint8'), f('int', 'b', type='uint8')), f('bundle', n, f('int', 'a', type='uint8', semanticType='length'), f('int', 'b', type='uint8')),
                         f('bundle', n, f('int', 'a', type='uint8'), semanticType='length'), f('bitfield', n, f('int', 'a', type='uint8', bitLength='3'), f('int', 'b', type='uint8', bitLength='5'), semanticType='length'),
                         f('set', n, length='1', semanticType='length'), f('set', n, length='1'), f('float', n, type='float', semanticType='length'), f('string', n), f('ref', n, field='p.I'), f('ref', n, field='p.Bu'),
                         f('ref', n, field='p.Len'), f('ref', n, field='p.I', semanticType='length'), f('optional', n, f('int', 'in', type='uint8')), f('optional', n, f('int', 'in', type='uint8'), semanticType='length'),
                         f('variant', n, f('int', 'in', type='uint8')), f('list', n, f('int', 'in', type='uint8')), f('data', n, semanticType='length')]
    kinds = {'string': ['lengthPrefix'], 'data': ['lengthPrefix'], 'list': ['countPrefix', 'lengthPrefix', 'elemLengthPrefix', 'termSuffix']}
    mk = {'string': lambda n: f('string', n), 'data': lambda n: f('data', n), 'list': lambda n: f('list', n, E('element', None, [f('int', 'el', type='uint8')]))}
    # kinds of prefixes: as a child, by reference, detached
    for k in kinds:
        for p in kinds[k]:
            for i, x in enumerate(pk()):
                e = mk[k]('t')
                e.c.append(E(p, None, [x]))
                g.field('child', e)
                e = mk[k]('t')
                e.set(p, 'X')
                g.add('byref', with_prelude(fields(x.clone().set('name', 'X'), e)))
                for where in range(3):
                    e = mk[k]('t')
                    e.set(p, '$X' if where < 2 else '$x')
                    sib = x.clone().set('name', 'X')
                    ms = [sib, e] if where != 1 else [e, sib]
                    g.add('detached', doc(bmsg('m', f('fields', None, *ms))))
                    g.field('detachedb', f('bundle', 'b', *[m.clone() for m in ms]))
    for v in ['$', '$nope', '$X.a', '$b.a', '$ X', '$X ', '$$X', 'X', '', '$b']:
        for k in kinds:
            for p in kinds[k]:
                e = mk[k]('t')
                e.set(p, v)
                g.add('path', doc(bmsg('m', f('fields', None, f('int', 'X', type='uint8'), f('bundle', 'b', f('int', 'a', type='uint8')), e))))
    # combinations of everything that delimits
    def delim(k, e, ps):
        for p in ps:
            if p in ('length', 'count'):
                e.set(p, '3')
            elif p == 'zeroTermSuffix':
                e.set(p, 'true')
            elif p == 'elemFixedLength':
                e.set(p, 'true')
            elif p.endswith('@'):
                e.set(p[:-1], '$X')
            elif p.endswith('+'):
                e.set(p[:-1], 'p.I')
            else:
                e.c.append(E(p, None, [f('int', 'pf', type='uint8')]))
        return e
    allp = {'string': ['length', 'zeroTermSuffix', 'lengthPrefix', 'lengthPrefix@', 'lengthPrefix+'], 'data': ['length', 'lengthPrefix', 'lengthPrefix@', 'lengthPrefix+'],
            'list': ['count', 'countPrefix', 'countPrefix@', 'lengthPrefix', 'lengthPrefix@', 'elemLengthPrefix', 'elemLengthPrefix@', 'elemFixedLength', 'termSuffix', 'termSuffix+', 'countPrefix+']}
    for k in allp:
        subs = [s for n in range(0, 4) for s in itertools.combinations(allp[k], n)]
        for s in g.some(subs, 130):
            g.add('combo', doc(bmsg('m', f('fields', None, f('int', 'X', type='uint8'), delim(k, mk[k]('t'), s)))))
            for s2 in r.sample(subs, g.n(1, 4)):      # reuse adds or changes
                d = delim(k, f(k, 't', reuse='B'), s2)
                b = delim(k, mk[k]('B'), [x for x in s if not x.endswith('@')])
                g.add('reuse', doc(fields(b), bmsg('m', f('fields', None, f('int', 'X', type='uint8'), d))))
    # default and valid values against what fits
    for n in range(0, 6):
        for ln in (None, '1', '3', '5'):
            for pf in (None, f('int', 'pf', type='uint8', bitLength=None) if False else f('int', 'pf', type='uint8'), f('int', 'pf', type='uint8', length='1')):
                for p in ('defaultValue', 'validValue', 'defaultValidValue'):
                    e = f('string', 't')
                    d = f('data', 't')
                    e.set(p, 'a' * n)
                    d.set(p, '0a' * n)
                    for x in (e, d):
                        if ln:
                            x.set('length', ln)
                        elif pf:
                            x.c.append(E('lengthPrefix', None, [pf.clone()]))
                        g.field('fits', x)
    for n in (254, 255, 256, 300):
        for k in ('string', 'data'):
            for pf in ('uint8', 'uint16', 'int8'):
                for p in ('defaultValue', 'validValue'):
                    e = f(k, 't', E('lengthPrefix', None, [f('int', 'pf', type=pf)]))
                    e.set(p, ('a' if k == 'string' else '0a') * n)
                    g.field('fits', e)
    for _ in range(g.n(700, 14000)):
        k = r.choice(['string', 'data', 'list'])
        names = ['s0', 's1']
        sibs = [r.choice(pk(n)) for n in names]
        e = {'string': lambda: rstring(r, 't', names), 'data': lambda: rdata(r, 't', names), 'list': lambda: rlist(r, 't', 1, names)}[k]()
        ms = sibs + [e]
        if r.random() < 0.15:
            r.shuffle(ms)
        g.add('rand', doc(bmsg('m', f('fields', None, *ms))) if r.random() < 0.6 else with_prelude(fields(f('bundle', 'b', *ms))))


# ---------------------------------------------------------------- P11

def rderive(r, kind, name, src, members=()):
    """a definition which reuses src"""
    e = f(kind, name, reuse=src)
    rprops(r, e, 0.08, 0.9, {k: v for k, v in KIND[kind].items() if k not in ('bitLength', 'field')})
    if r.random() < 0.4:
        rprops(r, e, 0.1, 0.9, COMMON)
    if r.random() < 0.2:
        e.set('reuseCode', r.choice(['true', 'false']))
    if r.random() < 0.1:
        e.set('description', 'other')
    if members and kind in ('bundle', 'variant', 'bitfield') and r.random() < 0.45:
        e.c = [c for c in e.c if c.t in ('alias',)]
        ms = []
        for x in r.sample(list(members) + ['nope'], r.randrange(1, 3)):
            m = rint(r, x, r.choice([3, 4, 8])) if kind == 'bitfield' else rfield(r, x, 1)
            ms.append(rver(r, m, 0.1))
        e.c.append(E('replace', None, ms))
    if kind in ('bundle', 'variant') and r.random() < 0.4:
        e.c.append(E('members', None, [rfield(r, r.choice(['n0', 'm0', 'n1']), 1) for _ in range(r.randrange(1, 3))]))
    if kind == 'bundle' and r.random() < 0.2:
        e.c.append(E('alias', {'name': r.choice(['al', 'zz', 'M0']), 'field': '$' + r.choice(['m0', 'm1', 'n0'])}))
    if kind == 'bundle' and r.random() < 0.2:
        e.set('validCond', r.choice(['$m0 = 1', '$n0 = 1', '$m1 != 2']))
    if kind == 'bundle' and r.random() < 0.2:
        e.set('reuseAliases', r.choice(['true', 'false']))
    return e


def rsource(r, kind, name):
    mk = {'int': lambda: rint(r, name), 'enum': lambda: renum(r, name), 'set': lambda: rset(r, name), 'float': lambda: rfloat(r, name), 'string': lambda: rstring(r, name), 'data': lambda: rdata(r, name),
          'list': lambda: rlist(r, name), 'bitfield': lambda: rbitfield(r, name), 'bundle': lambda: rbundle(r, name, 2), 'variant': lambda: rbundle(r, name, 2, 'variant'), 'optional': lambda: roptional(r, name), 'ref': lambda: rref(r, name)}
    e = mk[kind]()
    if r.random() < 0.4:
        rprops(r, e, 0.1, 1.0, COMMON)
    return e


@gen
def P11(g):
    r = g.r
    for k in KINDS:      # everything that can be changed on reuse, and unchanged reuse
        for s in REUSE[k]:
            g.field('plain', f(k, 't', reuse=s))
            for p, vs in g.some(list(dict(COMMON, **KIND[k]).items()), 10, 100):
                v = r.choice(vs)
                if p not in ('bitLength',):
                    g.field('change', apply_(f(k, 't', reuse=s), p, v))
    for _ in range(g.n(1500, 24000)):
        k = r.choice(KINDS + ['bundle', 'bundle', 'variant', 'bitfield', 'int', 'string'])
        src = rsource(r, k, 'a')
        mem = [c.get('name') for x in src.walk() if x is src or x.t == 'members' for c in x.c if c.t in KIND]
        chain = [src]
        for i in range(r.choice([1, 1, 1, 2, 3])):
            chain.append(rderive(r, k if r.random() < 0.97 else r.choice(KINDS), 'bcd'[i], 'a' if i == 0 or r.random() < 0.3 else 'abc'[i], mem))
        w = r.random()
        if w < 0.55:
            g.field('chain', *chain)
        elif w < 0.8:
            g.add('inmsg', doc(fields(*chain[:1]), rver(r, bmsg('m', f('fields', None, f('int', 'k0', type='uint8'), *[rver(r, c, 0.2) for c in chain[1:2]])), 0.4)))
        else:
            g.add('ns', doc(ns('n', fields(*chain[:1])), fields(*[c.set('reuse', 'n.a') for c in chain[1:2]])))
    # messages and interfaces
    for _ in range(g.n(1200, 20000)):
        a = rmsg(r, 'a', '1', 0.6)
        ks = [x.get('name') for x in a.walk() if x.t in KIND][:4]
        ms = [a]
        for i in range(r.choice([1, 1, 2])):
            b = rmsg(r, 'bc'[i], str(i + 2), 0.35)
            if b.get('reuse') or b.get('copyFieldsFrom') or r.random() < 0.8:
                b.a = [(p, v) for p, v in b.a if p not in ('reuse', 'copyFieldsFrom')]
                b.set(r.choice(['reuse', 'copyFieldsFrom']), r.choice(['a', 'a', 'ab'[i]]))
                if r.random() < 0.5:
                    b.c = [c for c in b.c if c.t not in ('fields',) and c.t not in KIND]
                else:
                    for c in b.walk():
                        if c.t in KIND and c is not b and (c.get('name') or '').startswith('m'):
                            c.set('name', 'x' + c.get('name'))
                if ks and r.random() < 0.3 and not any(c.t in KIND for c in b.c):
                    b.c.append(E('replace', None, [rfield(r, r.choice(ks), 1)]))
                    if sum(1 for c in b.c if c.t == 'replace') > 1:
                        b.c.pop()
            ms.append(b)
        g.add('msgs', doc(*ms))
    for _ in range(g.n(300, 4000)):
        a, b = riface(r, 'a'), riface(r, 'b')
        b.a = [(p, v) for p, v in b.a if p not in ('reuse', 'copyFieldsFrom')]
        b.set(r.choice(['reuse', 'copyFieldsFrom']), 'a')
        if r.random() < 0.5:
            b.c = [c for c in b.c if c.t == 'alias']
        g.add('ifs', doc(a, b))


def apply_(e, p, v):
    apply(e, p, v, False)
    return e


# ---------------------------------------------------------------- P12

@gen
def P12(g):
    r = g.r
    i = lambda n: f('int', n, type='uint8')
    mem = lambda: [i('a'), f('bundle', 'b', i('x'), f('bundle', 'y', i('z'), f('bitfield', 'w', f('int', 'p', type='uint8', bitLength='4'), f('int', 'q', type='uint8', bitLength='4')))), f('set', 's', f('bit', 'k', idx='0'), length='1'),
                   f('optional', 'o', i('in')), f('variant', 'v', i('m')), f('list', 'l', i('e')), f('ref', 'r', field='p.Bu'), f('string', 'str', E('lengthPrefix', None, [i('lp')])), f('bitfield', 'f', f('int', 'lo', type='uint8', bitLength='4'), f('enum', 'hi', f('validValue', 'V', val='1'), type='uint8', bitLength='4'))]
    paths = ['$a', '$b', '$b.x', '$b.y', '$b.y.z', '$b.y.w', '$b.y.w.p', '$b.y.w.q.r', '$s', '$s.k', '$o', '$o.in', '$v', '$v.m', '$l', '$l.e', '$r', '$r.m1', '$r.m3.deep', '$str', '$str.lp', '$f', '$f.lo', '$f.hi', '$f.hi.V', '$A', '$b.X', '$nope', '$b.nope',
             'a', '', '$', '$a.', '$.a', '$b..x', '$b.', '%a', '$$a', ' $a', '$a ', '$b. x']
    names = ['al', 'Al', 'a', 'A', 'b', 'x', '1a', 'a b', '', '_q', 'o', 'str']
    def one(place, als, ms=None):
        ms = ms if ms is not None else mem()
        if place == 'msg':
            return doc(bmsg('t', f('fields', None, *ms), *als))
        if place == 'if':
            return doc(f('interface', 't', f('fields', None, *ms), *als))
        return with_prelude(fields(f('bundle', 't', E('members', None, ms), *als)))
    al = lambda n, p: E('alias', {'name': n, 'field': p})
    for place in ('msg', 'if', 'bundle'):
        for p in paths:
            g.add('path', one(place, [al('al', p)]))
        for n in names:
            g.add('name', one(place, [al(n, '$b.x')]))
            for n2 in r.sample(names, 3):
                g.add('names', one(place, [al(n, '$a'), al(n2, '$b.x')]))
        for e in ([E('alias', {'name': 'al'})], [E('alias', {'field': '$a'})], [E('alias', None, [E('name', {'value': 'al'}), E('field', {'value': '$a'})])], [E('alias', {'name': 'al', 'field': '$a', 'description': 'd'})], [E('alias', {'name': 'al', 'field': '$a', 'foo': 'd'})],
                  [E('alias', {'name': 'al', 'field': '$a'}, [E('field', {'value': '$b'})])], [E('alias', {'name': 'al', 'field': '$a'}, [E('description', None, (), 'txt')])]):
            g.add('form', one(place, e))
    # inherited and copied aliases, with members removed, replaced, added
    for _ in range(g.n(1600, 26000)):
        place = r.choice(['msg', 'if', 'bundle', 'bundle'])
        ms = r.sample(mem(), r.randrange(2, 6))
        for m in ms:
            if r.random() < 0.25:
                m.set('deprecated', r.choice('234')).set('removed', 'true')
        ok = [m.get('name') for m in ms]
        pick_ = lambda: r.choice([p for p in paths[:25] if p[1:].split('.')[0] in ok] or ['$a']) if r.random() < 0.9 else r.choice(paths)
        nm = lambda: r.choice(['al', 'am', 'an', 'ao', 'Al', 'c', 'z']) if r.random() < 0.93 else r.choice(names)
        used = set()
        als = []
        for _ in range(r.randrange(1, 4)):
            n = nm()
            if n in used and r.random() < 0.8:
                continue
            used.add(n)
            als.append(al(n, pick_()))
        src = {'msg': lambda: bmsg('A', f('fields', None, *ms), *als, id='1'), 'if': lambda: f('interface', 'A', f('fields', None, *ms), *als), 'bundle': lambda: f('bundle', 'A', E('members', None, ms), *als)}[place]()
        more = [al(nm(), pick_())] if r.random() < 0.4 else []
        new = [i(r.choice(['n', 'al', 'Am', 'z', 'c']))] if r.random() < 0.5 else []
        repl = [E('replace', None, [r.choice([i(ok[0]), f('bundle', ok[0], i('x'), i('q'))])])] if r.random() < 0.3 and place != 'if' else []
        how = r.choice(['reuse', 'copyFieldsFrom', 'reuse'])
        if place == 'bundle':
            tgt = r.choice(['bundle', 'bundle', 'msg', 'if'])
            if tgt == 'bundle':
                d = f('bundle', 't', *repl, *([E('members', None, new)] if new else []), *more, reuse='A')
                if r.random() < 0.3:
                    d.set('reuseAliases', r.choice(['true', 'false']))
                if r.random() < 0.5:
                    g.add('inh', doc(fields(src), rver(r, bmsg('M', f('fields', None, i('k'), rver(r, d, 0.5))), 0.3)))
                else:
                    g.add('inh', with_prelude(fields(src, d)))
                continue
            d = bmsg('t', *([f('fields', None, *new)] if new else []), *more, *repl, copyFieldsFrom='A') if tgt == 'msg' else f('interface', 't', *([f('fields', None, *new)] if new else []), *more, copyFieldsFrom='A')
            src = fields(src)
        else:
            d = (bmsg('t') if place == 'msg' else f('interface', 't')).set(how, 'A')
            d.c = repl + ([f('fields', None, *new)] if new else []) + more
        if r.random() < 0.6:
            d.set('copyFieldsAliases', r.choice(['true', 'true', 'false']))
        if how == 'reuse' and r.random() < 0.3 and d.get('reuse'):
            d.set('reuseAliases', r.choice(['true', 'false']))
        if d.t == 'message':
            rver(r, d, 0.5)
        g.add('inh', doc(src, d, dslVersion=r.choice([None, None, None, '3', '4', '7'])))


# ---------------------------------------------------------------- P13

def cond_sibs():
    i8 = lambda n, **a: f('int', n, type='int8', **a)
    return [f('int', 'u', f('special', 'SP', val='3'), type='uint8'), i8('i'), f('int', 'big', type='uint64'), f('int', 'neg', type='int64'), f('enum', 'e', f('validValue', 'V1', val='1'), f('validValue', 'V2', val='2'), type='uint8'), f('set', 's', f('bit', 'b0', idx='0'), f('bit', 'b2', idx='2'), length='1'),
            f('float', 'f', f('special', 'FS', val='1.5'), type='float'), f('string', 'str'), f('data', 'd'), f('list', 'l', f('int', 'el', type='uint8')), f('bundle', 'b', i8('x'), f('set', 'y', f('bit', 'k', idx='1'), length='1'), f('string', 'z')),
            f('bitfield', 'bf', f('int', 'lo', type='uint8', bitLength='4'), f('set', 'hi', f('bit', 'h', idx='0'), bitLength='4')), f('ref', 'r', field='p.I'), f('ref', 'rb', field='p.Bu'), f('ref', 'rs', field='p.St'), f('optional', 'o', i8('in')), f('variant', 'v', i8('m'))]


COND_L = ['$u', '$i', '$big', '$neg', '$e', '$s', '$f', '$str', '$d', '$l', '$b', '$b.x', '$b.y', '$b.z', '$bf', '$bf.lo', '$bf.hi', '$r', '$rb', '$rb.m1', '$rs', '$o', '$o.in', '$v', '$v.m', '$nope', '$s.b0', '$b.y.k', '$#str', '$#d', '$#l', '$#u', '$#b', '$#b.z', '$?o', '$?u', '$?b.x', '%flags', '%ver', '%tag', '%nope', '%flags.fa', '%#tag', '%?ver', '',
          '$#', '$?', '$', '%', '$u.x', '$later', '$t', '$U', '$#o', '%#flags', '%?flags']
COND_R = ['0', '1', '-1', '255', '256', '-128', '-129', '300', '18446744073709551615', '9223372036854775808', '1.5', 'nan', 'abc', 'V1', 'V2', 'V9', 'SP', 'FS', '^p.Str', '^nope', '0a0b', '0a0', 'true', '', 'p.En.V1', 'p.I', 'p.I.S1', 'p.Nope', '0x10', '$u', '$i', '$e', '$s', '$f', '$str', '$d', '$l', '$b', '$b.x', '$r', '$o', '$v', '$nope', '$bf.lo', '%ver', '%flags', '%nope', '%tag', '$#str', '$?o', 'e.V1',
          '$s.b0', '%#tag', '-0', '1e3', '$rb.m1']
COND_1 = ['$s.b0', '!$s.b0', '$s.b2', '!$s.b9', '$s', '!$s', '$b.y.k', '!$b.y.k', '$bf.hi.h', '$bf.hi', '$rs.b0', '!$rs.b3', '$?o', '!$?o', '$?u', '$o', '$u', '%flags.fa', '!%flags.fb', '%flags.fc', '%flags', '%ver', '%nope.x', '!', '', '!!$s.b0', '! $s.b0', '!$', 'abc', '1', '$#str', '!$#str', '$rb.m2.x', '$o.in', '$?rb', '$?v', '%?flags', '%#tag', '$s.B0', '$e.V1', '$b.y']


@gen
def P13(g):
    r = g.r
    def at(place, c, tree=None):
        ms = cond_sibs()
        used = set(re.findall(r'[$#?]([A-Za-z]+)', c if tree is None else tree.xml()))
        ms = [m for m in ms if m.get('name') in used or m.get('name') == 'u']
        el = lambda tag: [tree] if tree is not None else []
        if place == 'opt':
            o = f('optional', 't', E('field', None, [f('int', 'in', type='uint8')]), *el('cond'))
            if tree is None:
                o.set('cond', c)
            return doc(bmsg('m', f('fields', None, *ms, o, f('int', 'later', type='uint8'))))
        if place == 'optb':
            o = f('optional', 't', E('field', None, [f('int', 'in', type='uint8')]), *el('cond'))
            if tree is None:
                o.set('cond', c)
            return doc(fields(f('bundle', 'bb', *ms, o)))
        if place == 'bundle':
            b = f('bundle', 'bb', E('members', None, ms), *el('validCond'))
            return doc(fields(b if tree is not None else b.set('validCond', c)))
        m = bmsg('m', f('fields', None, *ms), *el(place))
        return doc(m if tree is not None else m.set(place, c))
    places = ['opt', 'optb', 'bundle', 'validCond', 'readCond', 'construct']
    for c in COND_1:
        for pl in places:
            g.add('one-' + pl, at(pl, c))
    ops = ['=', '!=', '<', '>', '<=', '>=']
    combos = [(l, o, x, pl) for l in COND_L for o in ops for x in COND_R for pl in places]
    for l, o, x, pl in g.some(combos, 1900, 24000):
        # operands which mean something are tried more often
        if pl in ('readCond', 'construct') and not l.startswith('%') and r.random() < 0.8:
            l = r.choice(['%flags', '%ver', '%tag', '%nope', '%flags.fa', '%#tag'])
        g.add('cmp-' + pl, at(pl, '%s %s %s' % (l, o, x)))
    for c in ['$u=1', '$u  =  1', ' $u = 1', '$u = 1 ', '$u == 1', '$u = = 1', '$u =', '= 1', '$u 1', '$u <> 1', '$u => 1', '$u =< 1', '$u ! 1', '$u !=1', '$u = 1 = 2', '$u&1', '$str = a = b', '$str = a b', '$u >=', '$u > > 1', '$str = "abc"', "$str != ", '1 = $u', '0 < 1', '$u = $u', '$u != -0', '$str = $']:
        for pl in places[:4]:
            g.add('syntax', at(pl, c))
    good = {'opt': ['$u = 1', '$s.b0', '!$s.b2', '$?o', '$#str > 3', '$i < $u', '$e = V1', '$b.x != -1', '%flags.fa', '$f >= 1.5'], 'construct': ['%flags.fa', '!%flags.fb', '%ver = 3', '%ver != 3', '%ver > 1', '%nope'],
            'readCond': ['%flags.fa', '!%flags.fb', '%ver = 3', '%ver > 2', '$u = 1']}
    def tree(tag, pl, d):
        leaf = lambda: E(tag, {'value': r.choice(good.get(pl, good['opt'])) if r.random() < 0.92 else r.choice(COND_1)})
        n = r.choice([2, 2, 3]) if r.random() < 0.94 else r.choice([0, 1])
        return E(r.choice(['and', 'and', 'or']), None, [leaf() if d == 0 or r.random() < 0.6 else tree(tag, pl, d - 1) for _ in range(n)])
    for _ in range(g.n(900, 14000)):
        pl = r.choice(places)
        tag = 'cond' if pl in ('opt', 'optb') else 'validCond' if pl == 'bundle' else pl
        t = tree(tag, pl if pl in good else 'opt', r.choice([0, 1, 2]))
        x = t if pl in ('opt', 'optb') else E(tag, None, [t] if r.random() < 0.97 else [t, t.clone()])
        if r.random() < 0.03:
            x.c.append(E('foo', None))
        g.add('tree-' + pl, at(pl, '', x))
    # inherited, copied, converted conditions
    for _ in range(g.n(300, 6000)):
        c = {'construct': r.choice(good['construct'][:3]), 'readCond': r.choice(good['readCond'][:4]), 'validCond': r.choice(['$a = 1', '$s.b0', '$a > 2', '%flags.fa', '$#str = 1'])}
        fs = [f('int', 'a', type='uint8'), f('set', 's', f('bit', 'b0', idx='0'), length='1'), f('string', 'str'), f('int', 'gone', type='uint8', deprecated='2', removed='true')]
        A = bmsg('A', f('fields', None, *fs), id='1')
        for k in r.sample(list(c), r.randrange(1, 4)):
            A.set(k, c[k] if r.random() < 0.85 else '$gone = 1' if k == 'validCond' else c[k])
        B = bmsg('B', id='2')
        for k in ('copyConstructFrom', 'copyReadCondFrom', 'copyValidCondFrom'):
            if r.random() < 0.5:
                B.set(k, r.choice(['A', 'A', 'A', 'nope', 'U']))
        if r.random() < 0.4:
            B.set(r.choice(['reuse', 'copyFieldsFrom']), 'A')
            if r.random() < 0.4:
                B.c.append(E('replace', None, [r.choice([f('int', 'a', type='uint16'), f('string', 'a'), f('int', 's', type='uint8')])]))
            rver(r, B, 0.5)
        else:
            B.c.append(f('fields', None, *r.sample([x.clone() for x in fs[:3]], r.randrange(0, 4))))
        for k in ('constructAsReadCond', 'constructAsValidCond'):
            if r.random() < 0.25:
                B.set(k, r.choice(['true', 'false']))
        for k in c:
            if r.random() < 0.2:
                B.set(k, c[k])
        u = fields(f('bundle', 'U', f('int', 'a', type='uint8'), validCond='$a = 2'))
        g.add('inh', doc(u, A, B))
    # conditions inside of reused bundles
    for _ in range(g.n(150, 3000)):
        ms = [f('int', 'a', type='uint8'), f('set', 's', f('bit', 'b0', idx='0'), length='1'), f('optional', 'o', E('field', None, [f('int', 'in', type='uint8')]), cond=r.choice(['$a = 1', '$s.b0', '$a > $a'])), f('string', 'str', lengthPrefix='$a')]
        ms = ms[:r.randrange(3, 5)]
        for m in ms[:2]:
            if r.random() < 0.3:
                m.set('deprecated', '2').set('removed', 'true')
        A = f('bundle', 'A', E('members', None, ms))
        if r.random() < 0.6:
            A.set('validCond', r.choice(['$a = 1', '$s.b0', '$?o']))
        d = f('bundle', 'd', reuse='A')
        if r.random() < 0.5:
            d.c.append(E('replace', None, [r.choice([f('int', 'a', type='int16'), f('string', 'a'), f('set', 's', f('bit', 'b1', idx='1'), length='1'), f('enum', 's', f('validValue', 'b0', val='0'), type='uint8'), f('int', 'o', type='uint8')])]))
        g.add('inhb', doc(fields(A), rver(r, bmsg('m', f('fields', None, f('int', 'k', type='uint8'), rver(r, d, 0.3))), 0.4)))


# ---------------------------------------------------------------- P14

@gen
def P14(g):
    r = g.r
    for e in g.some(frame_singles(), 500):
        g.add('single', frame_doc(e))
    # every sequence of layers without references, then with them
    kinds = ['sync', 'size', 'id', 'value', 'payload', 'checksum', 'custom']
    seqs = [s for n in (1, 2, 3, 4) for s in itertools.product(kinds, repeat=n) if n < 4 or 'payload' in s]
    for s in g.some(seqs, 500):
        ls = []
        for i, k in enumerate(s):
            l = layer(k, 'l%d' % i)
            if k == 'checksum':
                pay = s.index('payload') if 'payload' in s else 0
                if i > pay:
                    l.set('from', 'l%d' % r.randrange(0, i))
                else:
                    l.set('until', 'l%d' % (len(s) - 1))
            ls.append(l)
        g.add('seq', frame_doc(frame('t', ls)))
    # references of checksums and syncs: every target
    for n in (3, 4, 5):
        for pay in range(0, n):
            for at in range(n):
                if at == pay:
                    continue
                for kind in ('checksum', 'customsum', 'seek', 'vbr'):
                    for frm in [None] + list(range(n)):
                        for until in ([None] + list(range(n)) if kind in ('checksum', 'customsum') else [None]):
                            if r.random() > g.n(0.25 if n < 5 else 0.12, 1 if n < 5 else 0.8):
                                continue
                            ls = [layer('payload' if i == pay else 'custom', 'l%d' % i) for i in range(n)]
                            if r.random() < 0.3 and n > 3:        # another one in between
                                j = r.choice([i for i in range(n) if i not in (pay, at)])
                                ls[j] = layer('checksum', 'l%d' % j, **({'from': 'l%d' % r.randrange(0, max(1, j))} if j > pay else {'until': 'l%d' % (n - 1)}))
                            if kind == 'checksum':
                                l = layer('checksum', 'l%d' % at)
                                a, b = 'from', 'until'
                            elif kind == 'customsum':
                                l = layer('custom', 'l%d' % at, semanticLayerType='checksum')
                                a, b = 'checksumFrom', 'checksumUntil'
                            else:
                                l = layer('sync', 'l%d' % at, **({'seekField': 'true'} if kind == 'seek' else {'verifyBeforeRead': 'true'}))
                                a, b = 'from', ''
                            if frm is not None:
                                l.set(a, 'l%d' % frm)
                            if until is not None:
                                l.set(b, 'l%d' % until)
                            ls[at] = l
                            g.add('rng-' + kind, frame_doc(frame('t', ls), dslVersion=r.choice([None] * 9 + ['7', '8'])))
    # interfaces of value layers
    ifs = lambda: [f('interface', 'X', f('int', 'a', type='uint8'), f('int', 'ver', type='uint8')), f('interface', 'Y', f('int', 'ver', type='uint8')), f('interface', 'Z', f('int', 'b', type='uint8'), f('int', 'ver', type='uint16'))]
    for sub in itertools.product([0, 1], repeat=3):
        for il in (None, 'X', 'X,Z', 'X,Y', 'n.X', 'Z , X', '', 'n.Z,Z', 'X,X', 'nope', 'X,,Z', ',X', 'n.m.X', '@s1.X', '@s1.n.Z'):
            for pl in range(3):
                if r.random() > g.n(0.5, 1):
                    continue
                es = [e for e, b in zip(ifs(), sub) if b]
                l = f('value', 'v', f('int', 'F', type='uint8'), interfaceFieldName='ver')
                if il is not None:
                    l.set('interfaces', il)
                fr = frame('t', [l, layer('payload', 'data')])
                g.add('ifs', schema({0: es + [fr], 1: [ns('n', *es), fr], 2: [ns('n', ns('m', *es)), E('interfaces', None, es[:1]), fr]}[pl]))
    for _ in range(g.n(1300, 22000)):
        g.add('rand', frame_doc(rframe(r, 't'), dslVersion=r.choice([None] * 12 + ['4', '7', '8'])))
    for _ in range(g.n(60, 400)):       # several frames
        g.add('many', frame_doc(rframe(r, 't'), rframe(r, r.choice(['u', 'T']))))


# ---------------------------------------------------------------- P15

@gen
def P15(g):
    r = g.r
    lists = [(), ('Lin',), ('Lin', 'Win'), ('Lin', 'Win', 'Mac'), ('lin', 'Lin')]
    for pl in lists:
        for p in PLATFORMS + [None]:
            m = bmsg('t')
            if p is not None:
                m.set('platforms', p)
            g.add('list', schema(([platforms(pl)] if pl else []) + [m]))
            if p is not None:
                g.add('child', schema(([platforms(pl)] if pl else []) + [bmsg('t', E('platforms', {'value': p}))]))
    for a in PLATFORMS[:12]:
        for b in PLATFORMS[:12] + [None]:
            for how in ('reuse', 'copyFieldsFrom'):
                m = bmsg('b', id='2').set(how, 'a')
                if b is not None:
                    m.set('platforms', b)
                g.add('inherit', schema([platforms(), bmsg('a', id='1', platforms=a), m]))
    for n in ['Lin', 'a b', '1', '', '+x', 'x+', 'a,b', '-', 'a-b', 'é', 'a.b', 'Lin ', ' Lin', '_', 'a/b']:
        g.add('pname', schema([platforms((n,)), bmsg('t')]))
        g.add('pname', schema([platforms(('Lin', n)), bmsg('t', platforms='-Lin')]))
        g.add('pname', schema([platforms((n,)), bmsg('t', platforms='+' + n)]))
        g.add('pname', schema([E('platform', {'name': n}), bmsg('t', platforms='+' + n)]))
    forms = [[E('platforms', None, [E('platform', None, (), 'Lin')])], [E('platforms', None, [E('platform', {'name': 'Lin'}), E('platform', {'name': 'Lin'})])], [E('platform', {'name': 'Lin'}), E('platform', {'name': 'Win'})],
             [E('platforms', None, [E('foo', {'name': 'Lin'})])], [E('platforms', None, [])], [platforms(('Lin',)), platforms(('Win',))], [platforms(('Lin',)), E('platform', {'name': 'Win'})], [E('platform', None)],
             [E('platform', None, [E('name', {'value': 'Lin'})])], [E('platform', {'name': 'Lin', 'foo': 'x'})]]
    for x in forms:
        for p in (None, '+Lin', '-Lin', '+Win', '-Win', '+Lin,Win'):
            for where in range(3):
                m = bmsg('t')
                if p:
                    m.set('platforms', p)
                ds = [[schema(x + [m])], [schema([m] + x)], [schema(x), schema([m])]][where]
                g.add('form', *ds)
    for s in ['both', 'client', 'server', 'Client', 'SERVER', 'any', '', 'c', ' client', 'both,client', None]:
        for s2 in ['both', 'client', 'server', None, 'bad']:
            for how in ('reuse', 'copyFieldsFrom', None):
                a, b = bmsg('a', id='1'), bmsg('b', id='2')
                if s is not None:
                    a.set('sender', s)
                if s2 is not None:
                    b.set('sender', s2)
                if how:
                    b.set(how, 'a')
                g.add('sender', schema([a, b]))
    for _ in range(g.n(900, 9000)):
        names = r.sample(['Lin', 'Win', 'Mac', 'A', 'b', 'Zed', 'lin2', 'QNX'], r.randrange(0, 6))
        ex = lambda: r.choice('+-') + r.choice([',', ', ', ' ,']).join(r.sample(names, r.randrange(1, len(names) + 1)) if names and r.random() < 0.9 else ['nope'])
        ms = []
        for i in range(r.randrange(1, 4)):
            m = bmsg('m%d' % i, id=str(i))
            if r.random() < 0.7:
                m.set('platforms', ex())
            if r.random() < 0.4:
                m.set('sender', r.choice(['client', 'server', 'both']))
            if i and r.random() < 0.5:
                m.set('reuse', 'm%d' % r.randrange(i))
            ms.append(m if r.random() < 0.7 else ns('n%d' % i, m) if i == 0 or not m.get('reuse') else m)
        plat = [platforms(names)] if names else []
        k = r.random()
        if k < 0.7:
            g.add('rand', schema(plat + ms))
        elif k < 0.85:
            g.add('rand', schema([E('platform', {'name': n}) for n in names] + ms))
        else:
            g.add('rand', schema(plat + ms[:1]), schema([platforms(['Extra'])] + ms[1:]))


# ---------------------------------------------------------------- P17

@gen
def P17(g):
    r = g.r
    for k in ('bitfield', 'bundle', 'list', 'optional', 'variant', 'ref'):
        for e in g.some(singles(k), 200):
            g.field('single', e)
    inner = {k: (lambda k=k: base(k, 'x')) for k in KINDS}
    forms = {'bundle': 'members', 'bitfield': 'members', 'variant': 'members', 'list': 'element', 'optional': 'field'}
    for k, w in forms.items():
        for a in KINDS:
            x = inner[a]()
            if k == 'bitfield':
                x.set('bitLength', '8')
            for n in (0, 1, 2):
                ms = [x.clone().set('name', 'x%d' % i) for i in range(n)]
                g.field('inner', f(k, 't', *ms))
                g.field('inner', f(k, 't', E(w, None, ms)))
            g.field('inner', f(k, 't', E(w, None, [x.clone()]), x.clone().set('name', 'q')))
            g.field('inner', f(k, 't', E(w, None, [x.clone()]), E(w, None, [x.clone().set('name', 'q')])))
            g.field('inner', f(k, 't', E(w, None, [x.clone(), E('foo', None)])))
            g.field('inner', f(k, 't', x.clone(), description='d'))
            g.field('inner', f(k, 't', x.clone(), E('description', {'value': 'd'})))
    # widths of bitfields
    for _ in range(g.n(500, 9000)):
        ws = [r.randrange(1, 20) for _ in range(r.randrange(1, 6))]
        if r.random() < 0.8:
            ws.append((-sum(ws)) % 8 or 8)
        if r.random() < 0.1:
            ws.append(r.choice([24, 32, 48, 56]))
        ms = []
        for i, w in enumerate(ws):
            k = r.random()
            t = next((x for x, s in (('uint8', 8), ('uint16', 16), ('uint32', 32), ('uint64', 64)) if s >= w or x == 'uint64'))
            if k < 0.35:
                m = f('int', 'm%d' % i, type=t if r.random() < 0.8 else 'int64', bitLength=w)
            elif k < 0.55:
                m = f('enum', 'm%d' % i, f('validValue', 'V', val='1'), type=t, bitLength=w)
            elif k < 0.8:
                m = f('set', 'm%d' % i, bitLength=w)
                if r.random() < 0.4:
                    m.set('type', t)
            elif k < 0.95:
                m = f('ref', 'm%d' % i, field=r.choice(['p.I', 'p.En', 'p.St', 'p.Big']), bitLength=w)
            else:
                m = f('int', 'm%d' % i, type='uint8')
            ms.append(m)
        g.field('width', f('bitfield', 't', *ms))
    # defaults of variants and optionals
    for n in range(1, 4):
        for v in ['m0', 'm1', 'm2', 'M0', '0', '1', '2', '3', '-1', '-2', 'p.En.V1', 'p.En.V2', 'p.En.V300', 'p.Neg.M', 'x', '', 'm0 ', '0x1', 'p.En.nope', '18446744073709551615']:
            g.field('def', f('variant', 't', *[f('int', 'm%d' % i, type='uint8') for i in range(n)], defaultMember=v))
            g.field('defr', f('variant', 'a', *[f('int', 'm%d' % i, type='uint8') for i in range(n)], defaultMember='m0'), f('variant', 't', reuse='a', defaultMember=v))
            g.field('defr', f('variant', 'a', *[f('int', 'm%d' % i, type='uint8') for i in range(n)], defaultMember='0'), f('variant', 't', E('members', None, [f('string', 'n0')]), reuse='a', defaultMember=v))
    for v in KIND['optional']['defaultMode'] + ['EXIST', 'Missing', 'TENT', 'T', 'E', 'M', 'exi', 'tenta']:
        for v2 in [None, 'exist', 'missing']:
            es = [f('optional', 'a', f('int', 'in', type='uint8'), defaultMode=v)]
            if v2:
                es.append(f('optional', 't', reuse='a', defaultMode=v2))
            g.field('mode', *es)
    for _ in range(g.n(1300, 22000)):
        k = r.choice(['bundle', 'bitfield', 'variant', 'list', 'optional'])
        e = {'bundle': lambda: rbundle(r, 't', 3), 'variant': lambda: rbundle(r, 't', 3, 'variant'), 'bitfield': lambda: rbitfield(r, 't'), 'list': lambda: rlist(r, 't', 3), 'optional': lambda: roptional(r, 't', 3)}[k]()
        es = [e]
        if r.random() < 0.25:
            mem = [c.get('name') for x in e.walk() if x is e or x.t == 'members' for c in x.c if c.t in KIND]
            es.append(rderive(r, k, 'u', 't', mem))
        g.field('rand', *es)


# ---------------------------------------------------------------- P16

def mutate(r, text):
    """one change of a document, well formed or not"""
    k = r.random()
    tags = list(re.finditer(r'<[A-Za-z][^<>]*>', text))
    attrs = list(re.finditer(r' ([A-Za-z]+)="([^"]*)"', text))
    if k < 0.12 and text:      # break the text itself
        i = r.randrange(len(text))
        return r.choice([text[:i], text[:i] + r.choice('<>&"\'/x=\x01') + text[i:], text[:i] + text[i + 1:], text[:i] + text[i + r.randrange(1, 40):]])
    if k < 0.45 and attrs:
        m = r.choice(attrs)
        v = r.choice(['', '0', '1', '-1', 'x', m.group(2) + 'x', m.group(2)[:-1], '999', '18446744073709551615', '-9223372036854775808', '[0, 1]', 'true', '$a', '%a', '^a', 'a.b', '@s', '@', '.', 'nan', 'inf', r.choice(attrs).group(2), m.group(2).upper(), m.group(2) + ' ', '$', '#', '!', '=', '1/0'])
        return text[:m.start(2)] + v.replace('&', '') + text[m.end(2):]
    if k < 0.6 and attrs:
        m = r.choice(attrs)
        if r.random() < 0.6:
            return text[:m.start()] + text[m.end():]
        return text[:m.start(1)] + r.choice(['name', 'type', 'length', 'bitLength', 'val', 'idx', 'reuse', 'field', 'id', 'defaultValue', 'foo', 'validRange', 'sinceVersion', 'deprecated', 'count', 'lengthPrefix', 'cond']) + text[m.end(1):]
    if k < 0.75 and attrs:
        m = r.choice([t for t in tags] or [None])
        if m is None:
            return text
        end = m.end() - (2 if m.group().endswith('/>') else 1)
        n, v = r.choice([('reuse', 'p.I'), ('length', '0'), ('bitLength', '3'), ('validRange', '[1, 0]'), ('sinceVersion', '3'), ('deprecated', '2'), ('removed', 'true'), ('defaultValue', 'x'), ('semanticType', 'length'), ('count', '2'), ('cond', '$x'), ('validCond', '$a = 1'), ('foo', 'bar'),
                         ('copyFieldsFrom', 'x'), ('lengthPrefix', '$a'), ('id', '1'), ('platforms', '+a'), ('field', 'x'), ('type', 'uint64'), ('seekField', 'true'), ('order', '1')])
        if ' %s=' % n in m.group():
            return text
        return text[:end] + ' %s="%s"' % (n, v) + text[end:]
    # elements: duplicate, delete, move, rename, empty
    spans = [(m.start(), m.end()) for m in re.finditer(r'<([A-Za-z]+)(?: [^<>]*)?/>|<([A-Za-z]+)(?: [^<>]*)?>(?:[^<]|<(?!/\2>)(?!\2[ >]))*</\2>', text)]
    if not spans:
        return text + '<'
    a, b = r.choice(spans)
    x = text[a:b]
    c = r.random()
    if c < 0.25:
        return text[:b] + x + text[b:]
    if c < 0.5:
        return text[:a] + text[b:]
    if c < 0.75:
        p, q = r.choice(spans)
        return text[:a] + text[p:q] + text[b:]
    t1 = re.match(r'<([A-Za-z]+)', x).group(1)
    t2 = r.choice(list(KIND) + ['fields', 'members', 'message', 'ns', 'frame', 'interface', 'schema', 'validValue', 'bit', 'special', 'and', 'or', 'alias', 'replace', 'layers', 'payload', 'id', 'sync', 'checksum', 'foo', 'element', 'field'])
    return text[:a] + re.sub(r'^<%s' % t1, '<' + t2, re.sub(r'</%s>$' % t1, '</%s>' % t2, x)) + text[b:]


TRIVIAL = ['', ' ', '<', '<?xml version="1.0"?>', '<schema/>', '<schema name="a"/>', '<foo/>', '<schema name="a"></schema><schema name="b"/>', '<schema name="a"><fields/></schema>', '<schema name="a" name="b"/>', '<schema name="a">&bad;</schema>',
           '<schema name="a">text<!-- c --><![CDATA[x]]></schema>', '<!DOCTYPE x [<!ENTITY e "v">]><schema name="&e;"/>', '<schema xmlns="urn:x" name="a"/>', '<x:schema xmlns:x="urn:x" name="a"/>', '<schema name="a" x:y="1" xmlns:x="urn:q"/>', '<schema name="a"><fields><int/></fields></schema>',
           '\ufeff<schema name="a"/>', '<schema name="a"\x00/>', '<schema name="' + 'a' * 5000 + '"/>', '<schema name="a">' + '<ns name="n">' * 150 + '</ns>' * 150 + '</schema>', '<schema name="a"><fields><fields/></fields></schema>', '<schema name="a"><message/></schema>', '<schema name="a"><frame/></schema>',
           '<schema name="a"><interface/></schema>', '<schema name="a"><ns/></schema>', '<schema name="a"><platform/></schema>', '<schema name="a"><name value="b"/></schema>', '<schema><name value="b"/></schema>', '<schema><name>b</name></schema>', '<schema><name value="b">b</name></schema>', '<schema name="a"><messages><int name="x" type="uint8"/></messages></schema>']


@gen
def P16(g):
    r = g.r
    for t in TRIVIAL:
        if '\x00' not in t:
            g.add('trivial', t)
    files = sorted(glob.glob(os.path.join(CORPUS, '*.xml')))
    texts = [open(p, encoding='utf-8').read() for p in files]
    texts = [t for t in texts if len(t) < 4500 and t.isascii()]
    rich = [doc(rmsg(r, 't')).xml() for _ in range(20)] + [with_prelude(fields(rfield(r, 't', 2))).xml() for _ in range(30)] + [frame_doc(rframe(r, 't')).xml() for _ in range(15)] + [fdoc(k, e).xml() for k, e in features()]
    for _ in range(g.n(2300, 36000)):
        t = r.choice(texts) if r.random() < 0.5 else r.choice(rich)
        m = t
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            m = mutate(r, m)
        if mutok(m):
            g.add('mut', m)
    for k in KINDS:      # every property of every kind, with values of other properties
        ps = list(props(k).items())
        for _ in range(g.n(15, 200)):
            e = base(k, 't')
            p, q = r.choice(ps), r.choice(ps)
            e.set(p[0], r.choice(q[1]))
            g.field('odd', e)
    # definitions with no content, in every place
    for t in list(KIND) + ['message', 'interface', 'frame', 'ns', 'platforms', 'fields', 'messages', 'frames', 'interfaces', 'layers', 'members', 'alias', 'replace', 'validCond', 'cond', 'element']:
        for wrap_ in ('', 'fields', 'messages', 'frames', 'interfaces', 'ns', 'message', 'bundle', 'list', 'variant', 'bitfield', 'optional', 'string', 'interface', 'frame'):
            x = '<%s/>' % t
            if wrap_:
                n = ' name="w" id="1"' if wrap_ == 'message' else ' name="w"' if wrap_ not in ('fields', 'messages', 'frames', 'interfaces') else ''
                x = '<%s%s>%s</%s>' % (wrap_, n, x, wrap_)
            if wrap_ in ('bundle', 'list', 'variant', 'bitfield', 'optional', 'string'):
                x = '<fields>%s</fields>' % x
            g.add('empty', '<schema name="a">%s</schema>' % x)


def mutok(m):
    """texts the lexical layer of the model does not cover are left out"""
    if not m.isascii() or '\x01' in m and False:
        return False
    return True
