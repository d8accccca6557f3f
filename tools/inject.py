"""what became of the code snippets given to a generator

A snippet consists of a marker; the places of all the markers in the generated files are reported.
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genobs

TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)\'|^[ \t]*#[^\n]*|[{};]|\b(?:public|protected|private)\s*:(?!:)|[^{};"\'/#\s]+|/|#|\s+|["\']', re.S | re.M)
MARK = re.compile(r'\bMk(\d+)\b')


def bare(text):
    """without template parameters"""
    t = re.sub(r'\s+', ' ', text).strip()
    while re.match(r'(?:template|alignas)\s*[<(]', t):
        k, i = 0, t.index('<') if t.startswith('template') else t.index('(')
        while i < len(t):
            k += {'<': 1, '>': -1, '(': 1, ')': -1}.get(t[i], 0)
            i += 1
            if not k:
                break
        t = t[i:].strip()
    return t


def head(text):
    """kind and name of what a brace opens"""
    t = bare(text)
    m = re.match(r'(?:inline )?namespace (\w+)', t)
    if m:
        return 'namespace ' + m.group(1)
    m = re.match(r'(?:typedef )?(?:class|struct|union) (?:alignas\([^)]*\) )?(\w+)', t)
    if m:
        return 'class ' + m.group(1)
    m = re.search(r'([~\w]+|operator\W+) ?\(', t)
    if m and not t.startswith(('enum', 'using', 'return', 'if', 'for', 'while', 'switch', 'else')) and '=' not in t[:m.start()]:
        return 'function ' + m.group(1)
    return ''


def marks(text, cpp):
    """([[marker, place]], {class: [its functions]}, [names of extended classes])"""
    res, fns, orig = [], {}, []
    if not cpp:
        return [[int(m.group(1)), 'text'] for m in MARK.finditer(text)], fns, orig
    stack, cur, opened = [], '', False
    where = lambda: [x for x in stack if x[0]]
    chain = lambda s: ' '.join(x[0] for x in s if not x[0].startswith('namespace'))
    def named(h):
        m = re.match(r'(?:class|using) (\w+Orig)\b', h)
        if m:
            orig.append(m.group(1))
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if t.startswith(('//', '/*', '"', "'")) or t.lstrip().startswith('#'):
            for k in MARK.finditer(t):
                res.append([int(k.group(1)), 'comment'])
            continue
        if t == '{':
            h = head(cur)
            opened = opened or h.startswith('namespace')
            if h.startswith('function') and where() and where()[-1][0].startswith('class'):
                n = h[9:]
                if where()[-1][0] == 'class ' + n and not re.search(r'\b%s\s*\(\s*\)' % n, cur):
                    n += '(...)'        # copies
                fns.setdefault(chain(where()), []).append(n)
            named(h)
            stack.append([h, 'private' if h.startswith('class') and re.search(r'\bclass\s+\w+', cur) else 'public'])
            cur = ''
        elif t == '}':
            if stack:
                stack.pop()
            cur = ''
        elif t == ';':
            named(bare(cur))
            cur = ''
        elif re.match(r'(public|protected|private)\s*:$', t):
            if stack:
                stack[-1][1] = t.rstrip(': \n')
            cur = ''
        else:
            for k in MARK.finditer(t):
                s = where()
                if not s:
                    w = 'bottom' if opened else 'top'
                elif s[-1][0].startswith('namespace'):
                    w = 'namespace'
                else:
                    w = chain(s)
                    if s[-1][0].startswith('class'):
                        w += ' ' + s[-1][1]
                res.append([int(k.group(1)), w])
            cur += t
    return res, fns, orig


WHOLE = re.compile(r'\s*(?:namespace\s+(\w+)\s*\{)?\s*struct Mk(\d+);\s*(\}?)\s*')


def look(text, path):
    """marks() of a file"""
    m = WHOLE.fullmatch(text)
    if m and bool(m.group(1)) == bool(m.group(3)):
        return [[int(m.group(2)), 'whole' + (' namespace ' + m.group(1) if m.group(1) else '')]], {}, []
    return marks(text, path.endswith(('.h', '.cpp')))


def read(path):
    with open(path, encoding='utf-8', errors='replace') as h:
        return h.read()


def observe(top):
    """where every marker is: {marker: [[file, place]]}"""
    res = {}
    for rel, p in files(top).items():
        text = read(p)
        if 'Mk' in text:
            for k, w in look(text, rel)[0]:
                res.setdefault(k, []).append([rel, w])
    return res


def files(top):
    return {os.path.relpath(os.path.join(d, f), top): os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs}


def compare(top, base):
    """what the code made of the output: {marks, fns, fns0, orig, same}"""
    o = {'marks': [], 'fns': {}, 'fns0': {}, 'orig': {}, 'same': [], 'odd': []}
    old = files(base)
    for rel, p in sorted(files(top).items()):
        text = read(p)
        before = read(old[rel]) if rel in old else None
        if text == before:
            o['same'].append(rel)
            continue
        ms, fns, orig = look(text, rel)
        o['marks'] += [[k, rel, w] for k, w in ms]
        if orig:
            o['orig'][rel] = sorted(set(orig))
        if rel.endswith('.h'):
            o['fns'][rel] = fns
            try:
                o['odd'] += genobs.odd(genobs.cppx.header(text))
            except (IndexError, ValueError, RecursionError):
                pass        # snippets of a kind the reader does not know
            o['fns0'][rel] = look(before, rel)[1] if before is not None else {}
    return o


# ---------------------------------------------------------------- what is supplied

FNS = ['value', 'read', 'write', 'refresh', 'length', 'valid', 'name']
EXTS = ['replace', 'extend', 'public', 'protected', 'private', 'value', 'inc', 'append', 'construct', 'construct_body'] \
    + [f + b for f in FNS[1:] for b in ('', '_body')]
KINDS = {'int', 'enum', 'set', 'float', 'bitfield', 'bundle', 'string', 'data', 'list', 'ref', 'optional', 'variant'}
LAYERS = {'custom', 'sync', 'size', 'id', 'value', 'payload', 'checksum'}
OVERRIDES = re.compile(r' (?:%s)Override="[^"]*"' % '|'.join(FNS))


def cls(n):
    return n[:1].upper() + n[1:]


def stems(n, schema):
    """[[path without .h, kind, functions code is required for]] of the elements of a document"""
    res = []
    def prop(x, k):
        v = x['p'].get(k)
        return v[0]['s'] if v else ''
    def forced(x):
        return [f for f in FNS if prop(x, f + 'Override') in ('replace', 'extend')]
    def field(x, stem, kind):
        stem += '/' + cls(prop(x, 'name'))
        res.append([stem, kind, forced(x) if kind == 'field' else []])
        for c in x['c']:
            sub(c, stem)
    def sub(c, stem):
        if c['t'] in KINDS:
            field(c, stem, 'member')
        elif c['t'] in ('field', 'members', 'element', 'countPrefix', 'lengthPrefix', 'elemLengthPrefix', 'termSuffix', 'fields', 'escField'):
            for k in c['c']:
                sub(k, stem)
    def walk(x, path):
        for c in x['c']:
            t, nm = c['t'], prop(c, 'name')
            if t == 'ns':
                walk(c, path + [nm])
            elif t in ('messages', 'interfaces', 'frames'):
                walk(c, path)
            elif t == 'fields':
                for k in c['c']:
                    field(k, '/'.join(path + ['field']), 'field')
            elif t == 'message':
                s = '/'.join(path + ['message', cls(nm)])
                res.append([s, 'message', forced(c)])
                for k in c['c']:
                    sub(k, s)
            elif t == 'interface':
                s = '/'.join(path + [cls(nm or 'Message')])
                res.append([s, 'interface', []])
                for k in c['c']:
                    sub(k, s)
            elif t == 'frame':
                s = '/'.join(path + ['frame', cls(nm)])
                res.append([s, 'frame', []])
                for l in c['c']:
                    for y in ([l] if l['t'] in LAYERS else l['c']):
                        for k in y['c']:
                            sub(k, s + 'Layers/' + cls(prop(y, 'name')))
    walk(n, ['include', schema])
    return res


def choose(r, docs, made, main):
    """code to supply: ({file: {suffix: number}}, [[number, file, suffix, namespace]])"""
    inj, n = {}, [0]
    def put(b, e, empty=False):
        if e in inj.get(b, {}):
            return
        n[0] += 1
        inj.setdefault(b, {})[e] = 0 if empty else n[0]
    els = [x for name, d in docs for x in stems(d, name)]
    for s, k, fs in els:
        for f in fs:
            if r.random() < .97:
                put(s + '.h', f + (r.choice(['', '_body']) if f != 'value' else ''))
    fit = {'frame': ['replace', 'extend', 'public', 'protected', 'private', 'append'],
           'interface': ['replace', 'extend', 'public', 'protected', 'private', 'append', 'inc', 'construct']}
    if els:
        some = r.sample(els, min(len(els), r.choice([2, 4, 8, 12, 30])))
        for _ in range(r.choice([5, 12, 25, 40, 80])):
            s, k, fs = r.choice(some)
            e = r.choice(fit[k]) if k in fit and r.random() < .8 else r.choice(EXTS + ['construct', 'construct_body', 'extend', 'replace', 'construct', 'construct_body', 'extend'])
            if e == 'replace' and r.random() < .6:
                continue
            put(s + '.h', e, r.random() < .04)
    others = [f for f in made if re.search(r'/(options|input|factory|dispatch)/|Version\.h|MsgId\.h|Common\.h|\.txt|doc/', f)]
    for f in r.sample(others, min(len(others), r.choice([0, 2, 5, 10]))):
        for _ in range(r.randrange(1, 3)):
            # the code is looked for by the names of the schema
            put(f, r.choice(['append', 'extend', 'append', 'extend', 'public', 'inc', 'bind']), r.random() < .04)
    if r.random() < .3:
        put('include/%s/field/NoSuch.h' % docs[-1][0], r.choice(EXTS))
    ords = []
    for p in r.sample(['include/%s/extra/Foo.h' % docs[-1][0], 'include/%s/frame/layer/Cust.h' % docs[-1][0], 'include/%s2/Foo.h' % docs[-1][0],
                       'include/%s/Version.h' % docs[-1][0], 'doc/readme.txt', 'extra.dat', 'some.h.foo', 'doc/main.dox', 'x_%s/y.h' % docs[-1][0]]
                      + [f for f in made if r.random() < .02], r.choice([0, 0, 1, 3])):
        # not two files which end up at the same place
        if any(x[1].split('/')[:1] + x[1].split('/')[2:] == p.split('/')[:1] + p.split('/')[2:] for x in ords):
            continue
        n[0] += 1
        ords.append([n[0], p, p.rsplit('.', 1)[1], r.choice(['', '', docs[-1][0], docs[-1][0] + '2', 'a_' + docs[-1][0]])])
    for b in list(inj):
        for e in list(inj[b]):
            if e not in EXTS:       # not a suffix of snippets
                if inj[b][e]:
                    ords.append([inj[b][e], b + '.' + e, e, ''])
                del inj[b][e]
        if not inj[b]:
            del inj[b]
    return inj, ords


def supply(top, inj, ords):
    def put(p, text):
        p = os.path.join(top, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
    os.makedirs(top, exist_ok=True)
    for b, es in inj.items():
        for e, k in es.items():
            put(b + '.' + e, 'struct Mk%d;\n' % k if k else '')
    for k, p, e, n in ords:
        put(p, 'namespace %s\n{\n\nstruct Mk%d;\n\n}\n' % (n, k) if n else 'struct Mk%d;\n' % k)
