"""Reads the structure of generated C++ headers: includes, namespaces, classes with their base, enums, aliases, functions."""
import functools, os, re

_TOK = re.compile(r'''
   (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<num>\.?\d(?:[\w.]|[eEpP][+-])*)
 | (?P<str>"(?:[^"\\\n]|\\.)*")
 | (?P<chr>'(?:[^'\\\n]|\\.)*')
 | (?P<op>::|->|\.\.\.|\#\#|[-+*/%&|^=!]=|&&|\|\||.)
''', re.X | re.S)


def tokens(text):
    """tokens of C++ text without comments; preprocessor lines are returned separately"""
    pre, body = [], []
    for l in re.sub(r'\\\n', ' ', text).split('\n'):
        (pre if l.lstrip().startswith('#') else body).append(l)
    toks = []
    for m in _TOK.finditer('\n'.join(body)):
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        toks.append(number(t) if k == 'num' else t)
    return toks, pre


def number(t):
    u = t.rstrip('uUlL') if not t.lower().startswith('0x') else re.sub('[uUlL]+$', '', t)
    try:
        return str(int(u, 16) if u.lower().startswith('0x') else int(u, 10))
    except ValueError:
        return t


def join(toks):
    """the canonical text of a type or expression"""
    r, prev = '', ''
    for t in toks:
        if t in ('typename', 'template'):
            continue
        if prev and (prev[-1].isalnum() or prev[-1] == '_') and (t[0].isalnum() or t[0] == '_'):
            r += ' '
        r += t
        prev = t
    return r


class Decl:
    __slots__ = ('kind', 'name', 'scope', 'toks', 'kids', 'tmpl', 'items', 'args')

    def __init__(self, kind, name, scope, toks=(), kids=(), tmpl=None, items=()):
        self.kind, self.name, self.scope, self.toks, self.kids, self.tmpl, self.items = kind, name, scope, list(toks), list(kids), tmpl, list(items)

    @property
    def full(self):
        return '::'.join(self.scope + [self.name])

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


_OPEN = {'(': ')', '[': ']', '{': '}'}


def close(t, i):
    """index after the bracket closing t[i]"""
    o, c, d = t[i], _OPEN.get(t[i], '>'), 0
    while i < len(t):
        if o == '<' and t[i] in '([{':
            i = close(t, i)
            continue
        if t[i] == o:
            d += 1
        elif t[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced ' + o)


def split(t, sep=','):
    """parts of a token list separated at the top level"""
    r, cur, i = [], [], 0
    while i < len(t):
        if t[i] in '([{<' and (t[i] != '<' or _angle(t, i)):
            j = close(t, i)
            cur += t[i:j]
            i = j
            continue
        if t[i] == sep:
            r.append(cur)
            cur = []
        else:
            cur.append(t[i])
        i += 1
    return r + [cur] if cur or r else []


def _angle(t, i):
    try:
        close(t, i)
        return True
    except ValueError:
        return False


def template_args(t):
    """(name, [argument tokens]) of a type"""
    t = [x for x in t if x not in ('typename', 'template')]
    for i, x in enumerate(t):
        if x == '<':
            j = close(t, i)
            if j == len(t):
                return join(t[:i]), split(t[i + 1:j - 1])
            return join(t), []
    return join(t), []


def parse(t, scope=()):
    scope, i, out, tmpl = list(scope), 0, [], None
    while i < len(t):
        x = t[i]
        if x == ';' or (x in ('public', 'protected', 'private') and t[i + 1] == ':'):
            i += 1 if x == ';' else 2
            continue
        if x == 'template' and t[i + 1] == '<':
            j = close(t, i + 1)
            tmpl = t[i + 2:j - 1]
            i = j
            continue
        if x == 'namespace':
            j = t.index('{', i)
            e = close(t, j)
            name = join(t[i + 1:j])
            out.append(Decl('namespace', name, scope, kids=parse(t[j + 1:e - 1], scope + [name])))
            i = e
        elif x in ('class', 'struct') and _is_type(t, i):
            name = t[i + 1]
            j = i + 2
            if t[j] == 'final':
                j += 1
            if t[j] == ';':
                i = j + 1
                tmpl = None
                continue
            b = []
            while t[j] != '{':
                if t[j] == '<':
                    e = close(t, j)
                    b += t[j:e]
                    j = e
                else:
                    b.append(t[j])
                    j += 1
            e = close(t, j)
            b = [y for y in b[1:] if y not in ('public', 'virtual')]
            out.append(Decl('class', name, scope, toks=b, kids=parse(t[j + 1:e - 1], scope + [name]), tmpl=tmpl))
            i = e
            while i < len(t) and t[i] != ';':
                i += 1
        elif x == 'enum':
            j = i + 1
            if t[j] in ('class', 'struct'):
                j += 1
            name = t[j] if t[j] not in ':{' else ''
            b = j + (1 if name else 0)
            o = t.index('{', b)
            e = close(t, o)
            out.append(Decl('enum', name, scope, toks=t[b + 1:o], items=[p for p in split(t[o + 1:e - 1]) if p]))
            i = e
        elif x == 'using' and t[i + 2] == '=':
            j = i
            while t[j] != ';':
                j = close(t, j) if t[j] in '([{' else j + 1
            out.append(Decl('using', t[i + 1], scope, toks=t[i + 3:j], tmpl=tmpl))
            i = j + 1
        elif x == 'using' or x == 'friend' or x == 'static_assert' or x == 'typedef':
            j = i
            while j < len(t) and t[j] != ';':
                j = close(t, j) if t[j] in '([{' else j + 1
            out.append(Decl(x, '', scope, toks=t[i + 1:j]))
            i = j + 1
        elif x in ('COMMS_MSVC_WARNING_PUSH', 'COMMS_MSVC_WARNING_POP'):
            i += 1
            continue
        elif x == 'COMMS_MSVC_WARNING_DISABLE' and t[i + 1] == '(':
            i = close(t, i + 1)
            continue
        elif x.isupper() and '_' in x and i + 1 < len(t) and t[i + 1] == '(':
            e = close(t, i + 1)
            out.append(Decl('macro', x, scope, toks=t[i + 2:e - 1]))
            i = e
        else:
            # function or variable
            j, par, body, isfn, name, eq = i, None, [], False, '', False
            while j < len(t) and t[j] != ';':
                if t[j] == '(' and par is None and not eq:
                    par = j
                    name = t[j - 1] if t[j - 1] != ')' else t[j - 1]
                    if 'operator' in t[i:j]:
                        k = t.index('operator', i, j)
                        if j == k + 1:      # operator()
                            j = close(t, j)
                            par = j
                        name = 'operator' + ''.join(t[k + 1:j])
                    elif j >= 2 and t[j - 2] == '~':
                        name = '~' + name
                    j = close(t, j)
                    isfn = True
                    continue
                if t[j] == '=' and t[j - 1] != 'operator':
                    eq = True
                if t[j] == '{':
                    e = close(t, j)
                    if isfn and not eq:
                        body = t[j + 1:e - 1]
                        j = e
                        break
                    j = e
                    continue
                if t[j] in '([':
                    j = close(t, j)
                    continue
                j += 1
            if isfn:
                out.append(Decl('func', name, scope, toks=body, tmpl=tmpl, items=t[i:par]))
            else:
                out.append(Decl('var', '', scope, toks=t[i:j], tmpl=tmpl))
            i = j if j < len(t) and t[j] != ';' else j + 1
        tmpl = None
    return out


def _is_type(t, i):
    """class X { / class X : / class X;"""
    return i + 2 < len(t) and re.match(r'[A-Za-z_]', t[i + 1]) and t[i + 2] in ('{', ':', ';', 'final')


class Header:
    def __init__(self, text):
        toks, pre = tokens(text)
        self.inc = [m.group(1) for m in (re.match(r'\s*#\s*include\s*"([^"]*)"', l) for l in pre) if m]
        self.sys = [m.group(1) for m in (re.match(r'\s*#\s*include\s*<([^>]*)>', l) for l in pre) if m]
        self.macros = {}
        for l in pre:
            m = re.match(r'\s*#\s*define\s+(\w+)(.*)', l)
            if m:
                self.macros[m.group(1)] = m.group(2)
        self.toks = toks
        self.decls = parse(toks)

    def all(self):
        for d in self.decls:
            yield from d.walk()


@functools.lru_cache(maxsize=20000)
def header(text):
    return Header(text)


if __name__ == '__main__':
    import sys
    n = 0
    for a in sys.argv[1:]:
        for root, _, fs in os.walk(a) if os.path.isdir(a) else [(os.path.dirname(a), 0, [os.path.basename(a)])]:
            for f in fs:
                if f.endswith('.h'):
                    try:
                        h = header(open(os.path.join(root, f)).read())
                        n += 1
                    except Exception as e:
                        print(os.path.join(root, f), repr(e))
                        continue
                    if not os.path.isdir(a):
                        for d in h.all():
                            print(d.kind, d.full, join(d.toks)[:200], [join(x) for x in d.items][:6] if d.kind == 'enum' else '')
    print(n)
