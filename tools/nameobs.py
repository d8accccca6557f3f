"""What the generated headers declare and which names they use, before any of it is looked up."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cppx

ID = re.compile(r'[A-Za-z_]')
BUILTIN = set('typename template const void false true char bool float double int unsigned long short signed auto static sizeof nullptr return if else switch '
              'case default break continue while for do new delete this class struct enum using namespace final public protected private virtual override '
              'constexpr inline explicit operator decltype noexcept static_cast const_cast reinterpret_cast dynamic_cast static_assert friend typedef volatile mutable'.split())


def count(t, i):
    """(index after the arguments, how many there are; -1 with a pack)"""
    try:
        j = cppx.close(t, i)
    except ValueError:
        return i, None
    inner = t[i + 1:j - 1]
    if '...' in inner:
        return j, -1
    return j, len(cppx.split(inner)) if inner else 0


def chains(t):
    """qualified names: [[name, arguments (-2: none given)]...] and whether '...' follows"""
    for i in range(len(t)):
        if not ID.match(t[i]) or t[i] in BUILTIN:
            continue
        if i and t[i - 1] in ('.', '->') or i > 1 and t[i - 1] == '::' and (ID.match(t[i - 2]) and t[i - 2] not in BUILTIN or t[i - 2] == '>'):
            continue
        if i > 1 and t[i - 1] == 'template' and t[i - 2] == '::':
            continue
        j, ch = i, []
        while j < len(t) and ID.match(t[j]):
            n, a = t[j], -2
            j += 1
            if j < len(t) and t[j] == '<':
                k, c = count(t, j)
                if c is not None:
                    j, a = k, c
            ch.append([n, a])
            if j + 1 < len(t) and t[j] == '::':
                j += 1
                if t[j] == 'template':
                    j += 1
            else:
                break
        # given as a template, not as a type
        if i > 1 and t[i - 1] == '<' and t[i - 2] == 'MsgFactoryTempl' and j < len(t) and t[j] == '>':
            ch[-1][1] = -3
        yield ch, j < len(t) and t[j] == '...'


def params(t):
    """[(name, pack, default tokens or None)] of a template head"""
    res = []
    for p in cppx.split(t or []):
        e = p.index('=') if '=' in p else len(p)
        names = [x for x in p[:e] if ID.match(x)]
        if len(names) > 1:
            res.append((names[-1], '...' in p[:e], p[e + 1:] if e < len(p) else None))
    return res


def target(t):
    """the (first) class a class extends, or what an alias stands for"""
    t = [x for x in t if x not in ('typename', 'template', 'const')]
    for ch, _ in chains(t):
        return [x[0] for x in ch]
    return []


def observe(top):
    import genobs
    heads = [(rel, cppx.Header(open(path, errors='replace').read())) for rel, path in sorted(genobs.files(top).items()) if rel.endswith('.h')]
    roots = {d.name.split('::')[0] for _, h in heads for d in h.decls if d.kind == 'namespace'}
    have = {rel for rel, _ in heads}
    decl, uses = {}, set()
    for rel, h in heads:
        pos = [0]
        for x in h.inc + h.sys:
            if x.split('/')[0] in roots and 'include/' + x not in have:
                parts = x[:-2].split('/')
                for k in range(1, len(parts)):
                    decl.setdefault('::'.join(parts[:k]), dict(k='ns', f='', p=0, t=[-2, -2], b=[], at=''))
                decl['::'.join(parts)] = dict(k='outside', f='', p=0, t=[-2, 99], b=['comms'], at='')
        for m in h.macros:
            decl[m] = dict(k='macro', f='', p=0, t=[-2, -2], b=[], at='')

        def use(d, toks, tps, all_, packs):
            for ch, dots in chains(toks):
                x = ch[0][0]
                if not (all_ or x in roots or re.match('T[A-Z][a-z]', x)):
                    continue
                if x in ('std', 'comms') or x in BUILTIN:
                    continue
                uses.add((rel, pos[0] if all_ else 10 ** 6, '::'.join(d.scope), x in tps, tuple((n, a) for n, a in ch), bool(dots), x in packs))

        def walk(ds, tps, packs):
            for d in ds:
                pos[0] += 1
                ps = params(d.tmpl)
                mine = tps | {p[0] for p in ps}
                pk = (packs - {p[0] for p in ps}) | {p[0] for p in ps if p[1]}
                if d.kind == 'namespace':
                    full = []
                    for n in (d.scope + d.name.split('::')):
                        full.append(n)
                        decl.setdefault('::'.join(full), dict(k='ns', f='', p=0, t=[-2, -2], b=[], at=''))
                    walk(d.kids, mine, pk)
                    continue
                if d.tmpl:
                    for q in ps:
                        use(d, q[2] or [], mine, True, pk)
                if d.kind in ('class', 'using', 'enum') and d.name:
                    t = [-2, -2] if d.tmpl is None else [sum(1 for p in ps if p[2] is None and not p[1]), 99 if any(p[1] for p in ps) else len(ps)]
                    e = dict(k=d.kind, f=rel, p=pos[0], t=t, b=target(d.toks) if d.kind != 'enum' else [], at='::'.join(d.scope))
                    if d.full in decl and decl[d.full]['k'] != 'ns':
                        e['k'] = 'twice'
                    decl[d.full] = e
                if d.kind == 'enum':
                    for it in d.items:
                        for full in ('::'.join(d.scope + [it[0]]), d.full + '::' + it[0]):
                            decl[full] = dict(k='item', f=rel, p=pos[0], t=[-2, -2], b=[], at='::'.join(d.scope))
                    continue
                if d.kind in ('class', 'using'):
                    use(d, d.toks, mine, True, pk)
                else:
                    use(d, list(d.toks), mine, False, pk)
                    if d.kind == 'func':
                        use(d, list(d.items), mine, False, pk)
                        if d.name and '~' not in d.name and d.name not in d.scope[-1:]:
                            decl.setdefault(d.full, dict(k='func', f=rel, p=pos[0], t=[-2, 99], b=[], at='::'.join(d.scope)))
                walk(d.kids, mine, pk)
        walk(h.decls, set(), set())
    seen = set()
    res = []
    for u in sorted(uses, key=lambda u: (u[0], u[2:], u[1])):
        # the first of equal uses decides
        if (u[0],) + u[2:] not in seen:
            seen.add((u[0],) + u[2:])
            res.append(dict(f=u[0], p=u[1], s=around(u[2]), t=u[3], c=[list(x) for x in u[4]], dots=u[5], pack=u[6]))
    for e in decl.values():
        e['at'] = around(e['at'])
    return {'names': {'decl': decl, 'use': res, 'inc': {rel: ['include/' + x for x in sorted(set(h.inc)) if 'include/' + x in have] for rel, h in heads}}}


EXT = ('.h', '.cpp', '.hpp', '.cc', '.i')


def scopes(t):
    """index of each token -> names of the namespaces and classes around it"""
    stack, cur, res, i = [], [], [], 0
    pend = None
    for i, x in enumerate(t):
        if x == 'namespace' or (x in ('class', 'struct') and i + 1 < len(t) and ID.match(t[i + 1]) and (i == 0 or t[i - 1] in (';', '}', '{', '>', ':'))):
            j, name = i + 1, []
            while j < len(t) and (ID.match(t[j]) or t[j] == '::'):
                if t[j] != '::' and t[j] != 'final':
                    name.append(t[j])
                j += 1
            pend = name
        elif x == ';':
            pend = None
        elif x == '{':
            stack.append(pend or [])
            cur = cur + (pend or [])
            pend = None
        elif x == '}' and stack:
            n = len(stack.pop())
            cur = cur[:len(cur) - n] if n else cur
        res.append('::'.join(cur))
    return res


def wrappers(comms, top):
    """names of the code of commsdsl2comms which the code of another generator uses, together with the declarations of both"""
    import genobs
    names = observe(comms)['names']
    decl, inc = names['decl'], names['inc']
    comms_roots = {k for k, e in decl.items() if '::' not in k and e['k'] == 'ns'}
    have = {'app/' + rel: path for rel, path in genobs.files(top).items()}
    uses, outside = set(), []
    texts = {}
    for rel, path in sorted(have.items()):
        if rel.endswith(EXT):
            texts[rel] = re.sub(r'\\\n', ' ', open(path, errors='replace').read())
    toks = {rel: cppx.tokens(x) for rel, x in texts.items()}
    where = {rel: scopes(t) for rel, (t, _) in toks.items()}
    for rel, (t, pre) in toks.items():
        for i, x in enumerate(t):
            if x == 'namespace' and i + 1 < len(t) and ID.match(t[i + 1]):
                full = where[rel][i].split('::') if where[rel][i] else []
                j = i + 1
                while j < len(t) and (ID.match(t[j]) or t[j] == '::'):
                    if t[j] != '::':
                        full = full + [t[j]]
                        decl.setdefault('::'.join(full), dict(k='ns', f='', p=0, t=[-2, -2], b=[], at=around('')))
                    j += 1
            elif (x in ('class', 'struct') and i + 2 < len(t) and ID.match(t[i + 1]) and t[i + 2] in ('{', ':', ';', 'final')) or (x == 'using' and i + 2 < len(t) and t[i + 2] == '='):
                s = where[rel][i]
                decl.setdefault((s + '::' if s else '') + t[i + 1], dict(k='outside', f=rel, p=0, t=[-2, 99], b=['comms'], at=around('')))
    for _, pre in toks.values():
        for l in pre:
            m = re.match(r'\s*#\s*define\s+(\w+)', l)
            if m:
                decl.setdefault(m.group(1), dict(k='macro', f='', p=0, t=[-2, -2], b=[], at=around('')))
    roots = {k for k, e in decl.items() if '::' not in k and e['k'] == 'ns'}

    def use(rel, ts, at):
        for ch, _ in chains(ts):
            uses.add((rel, at, tuple((n, a) for n, a in ch)))
    for rel, (t, pre) in toks.items():
        inc[rel] = []
        lines = [m.group(1) for m in (re.match(r'\s*#\s*include\s*"([^"]*)"', l) for l in pre) if m]
        for l in pre:
            m = re.match(r'\s*#\s*define\s+\w+\s+(.+)', l)
            if m and re.match(r'[\w/]+\.h$', m.group(1).strip()):
                lines.append(m.group(1).strip())
            elif m:
                for ch, at in qualified(cppx.tokens(m.group(1))[0], None, roots):
                    uses.add((rel, at, ch))
        for x in lines:
            c = ['include/' + x, 'app/' + x, 'app/include/' + x, os.path.normpath(os.path.join(os.path.dirname(rel), x))]
            hit = [y for y in c if y in inc or y in have]
            if hit:
                inc[rel].append(hit[0])
            elif x.split('/')[0] not in ('comms', 'cc_tools_qt'):
                outside.append([rel, x])
        for ch, at in qualified(t, where[rel], roots):
            uses.add((rel, at, ch))
        # macros of the protocol definition
        mine = {m.group(1) for m in (re.match(r'\s*#\s*define\s+(\w+)', l) for l in pre) if m}
        for x in sorted(set(t) - mine):
            if re.match(r'[A-Z][A-Z0-9_]*_(SPEC_VERSION|MAJOR_VERSION|MINOR_VERSION|PATCH_VERSION)$', x) and not x.startswith('COMMS_'):
                uses.add((rel, '', ((x, -2),)))
    for rel in texts:
        inc.setdefault(rel, [])
    build(top, uses, inc, outside, names)
    for l in inc.values():
        l[:] = [x for x in l if x in inc]
    names['use'] = [dict(f=u[0], p=10 ** 6, s=around(u[1]), t=False, c=[list(x) for x in u[2]], dots=False, pack=False) for u in sorted(uses)]
    names['outside'] = outside
    return {'names': names}


def build(top, uses, inc, outside, names):
    """what the generated CMakeLists.txt refers to: the classes the tests are compiled with, the sources, the plugins"""
    path = os.path.join(top, 'CMakeLists.txt')
    text = open(path).read() if os.path.exists(path) else ''
    text = re.sub(r'#.*', '', text)
    rel = 'app/CMakeLists.txt'
    sets = re.findall(r'set\s*\(OPT_TEST_(INTERFACE|FRAME|OPTIONS|INPUT_MESSAGES)\s+"([\w:]+)"\)', text)
    inc[rel] = []
    for k, x in sets:
        # the template arguments given in the test
        n = {'INTERFACE': -1, 'FRAME': 3, 'OPTIONS': -2, 'INPUT_MESSAGES': 2}[k]
        parts = x.split('::')
        uses.add((rel, '', tuple((p, n if i == len(parts) - 1 else -2) for i, p in enumerate(parts))))
        h = 'include/' + '/'.join(parts) + '.h'
        if h in inc:
            inc[rel].append(h)
        else:
            outside.append([rel, h])
    calls = re.findall(r'^cc_plugin\s*\(\s*"([^"]*)"\s+"([^"]*)"\s*\)', text, re.M)
    srcs = set()
    for x in re.findall(r'[\w/${}]+\.(?:cpp|i)\b', text):
        x = x.replace('${PROJECT_SOURCE_DIR}/', '').replace('${CMAKE_CURRENT_SOURCE_DIR}/', '')
        if '${protocol}' in x:
            srcs.update(x.replace('${protocol}', c[0]) for c in calls)
        elif '$' not in x:
            srcs.add(x)
    tests = re.findall(r'^define_test\s*\(\s*(\w+)\s*\)', text, re.M)
    srcs.update(x + '.cpp' for x in tests)
    have = []
    for d, _, fs in os.walk(top):
        have += [os.path.relpath(os.path.join(d, f), top) for f in fs if f.endswith(('.cpp', '.i'))]
    names['srcs'] = sorted(srcs)
    names['have'] = sorted(have)
    funcs = set(re.findall(r'function\s*\(\s*(cc_plugin_\w+)', text))
    names['lost'] = sorted([x for x in re.findall(r'^(cc_plugin_\w+)\s*\(', text, re.M) if x not in funcs] + [c[1] for c in calls if 'cc_plugin_' + c[1] not in funcs]
                           + [f for f in funcs if not re.search(r'^%s\s*\(' % f, text, re.M)])


def qualified(t, where, roots):
    """names which begin with a namespace of the generated code, and the scopes they are looked up in"""
    i = 0
    while i < len(t):
        x = t[i]
        if x in roots and i + 1 < len(t) and t[i + 1] == '::' and not (i and t[i - 1] in ('.', '->', 'namespace')):
            top = False
            if i and t[i - 1] == '::':
                if i > 1 and (ID.match(t[i - 2]) and t[i - 2] not in BUILTIN or t[i - 2] == '>'):
                    i += 1
                    continue
                top = True
            ch, _ = next(chains(t[i:i + 400]))
            at = '' if top or where is None else where[i]
            yield tuple((n, -4 if a == -2 else a) for n, a in ch), at
        i += 1


def around(scope):
    """the scopes around, the innermost first"""
    parts = scope.split('::') if scope else []
    return ['::'.join(parts[:k]) + '::' for k in range(len(parts), 0, -1)] + ['']


if __name__ == '__main__':
    import json
    print(json.dumps(observe(sys.argv[1]) if len(sys.argv) < 3 else wrappers(*sys.argv[1:3]), indent=1))
