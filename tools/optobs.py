"""The options structures: what may be customized, what each variant sets, where it is used."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cppx

J = cppx.join


def args(t):
    """arguments of a template, a single other type is an argument too"""
    if J(t).startswith('std::tuple<') and t[-1] == '>':
        t = t[t.index('<') + 1:-1]
        res, cur, depth = [], [], 0
        for x in t:
            if x in '<([':
                depth += 1
            elif x in '>)]':
                depth -= 1
            if x == ',' and depth == 0:
                res.append(J(cur))
                cur = []
            else:
                cur.append(x)
        return res + ([J(cur)] if cur else [])
    return [J(t)]


def structures(h):
    """options classes of a header: {class: {base, structs {path: base}, uses {path: [options]}, alias {name: target}}}"""
    res = {}
    for d in h.all():
        if d.kind not in ('class', 'using') or len(d.scope) < 2 or d.scope[1] != 'options':
            continue
        if len(d.scope) == 2:
            if d.kind == 'class' and d.name.endswith('T'):
                m = re.search(r'TBase = (.*)', ' '.join(d.tmpl or [])) if d.tmpl else None
                res[d.name[:-1]] = {'dflt': re.sub(r'\s', '', m.group(1)) if m else '', 'base': J(d.toks), 's': {}, 'u': {}, 'a': {}}
            elif d.kind == 'using' and d.name in res:
                res[d.name]['self'] = J(d.toks)
            continue
        own = res.get(d.scope[2][:-1])
        if own is None:
            continue
        path = '::'.join(d.scope[3:] + [d.name])
        if d.kind == 'class':
            own['s'][path] = 'twice' if path in own['s'] else J(d.toks)
        elif len(d.scope) == 3 and '<' in d.toks and d.tmpl:
            own['a'][path] = J(d.toks)
        else:
            own['u'][path] = ['twice'] if path in own['u'] else args(d.toks)
    return res


def uses(h):
    """[(place, options path)] of a header"""
    for d in h.all():
        if d.kind in ('class', 'using'):
            for p in re.findall(r'TOpt::([\w:]*\w)', J(d.toks)):
                yield re.sub('::Base$', '', d.full), p


def observe(top):
    import genobs
    res, used = {'opts': {}, 'topt': []}, set()
    for rel, path in sorted(genobs.files(top).items()):
        if not rel.endswith('.h'):
            continue
        h = cppx.Header(open(path, errors='replace').read())
        parts = rel.split('/')
        if parts[-2:-1] == ['options']:
            for k, v in structures(h).items():
                res['opts'][rel if parts[-1] == k + '.h' else rel + '#' + k] = v
        elif parts[-2:-1] not in (['input'], ['dispatch'], ['factory']):
            used |= set(uses(h))
    res['topt'] = [list(x) for x in sorted(used)]
    return res


if __name__ == '__main__':
    import json
    print(json.dumps(observe(sys.argv[1]), indent=1))
