"""What the generated classes say about themselves at run time: names, maps of names, units, decimals to display."""
import re
import cppx, genobs, lex


class World:
    def __init__(self, top):
        self.fn, self.base, self.alias, self.cls, self.enums = {}, {}, {}, {}, {}
        for rel, path in sorted(genobs.files(top).items()):
            if not rel.endswith('.h') or rel.split('/')[-2:-1] in (['options'], ['input'], ['dispatch'], ['factory']):
                continue
            try:
                h = cppx.Header(open(path, errors='replace').read())
            except Exception:
                continue
            for d in h.all():
                if d.kind == 'class':
                    self.cls.setdefault(d.full, d)
                    if d.toks:
                        self.base.setdefault(d.full, d.toks)
                elif d.kind == 'using' and d.name != 'Base':
                    self.alias.setdefault(d.full, d.toks)
                elif d.kind == 'enum':
                    self.enums.setdefault(d.full, genobs.enum(d))
                elif d.kind == 'func' and d.scope:
                    self.fn.setdefault(('::'.join(d.scope), d.name), []).append(d.toks)

    def find(self, name, scope):
        """the class a name stands for in a scope"""
        name = re.sub(r'^::', '', name)
        parts = scope.split('::')
        for i in range(len(parts), -1, -1):
            full = '::'.join(parts[:i] + [name])
            if full in self.cls or full in self.alias:
                return full
        return None

    def call(self, scope, name, depth=0):
        """(scope, body) of the function called, forwarding followed; None if there is none"""
        if depth > 20 or scope is None:
            return None
        for t in self.fn.get((scope, name), []):
            u = [x for x in t if x not in ('typename', 'template')]
            # return <class>::<function>(...);
            k = max([i for i in range(len(u) - 1) if u[i] == '::' and '(' not in u[:i]], default=0)
            if u[:1] == ['return'] and k and u[k + 2:k + 3] == ['('] and cppx.close(u, k + 2) == len(u) - 1:
                up = self.target(u[1:k], scope)
                if up:
                    return self.call(up, u[k + 1], depth + 1)
            return scope, u
        for t in (self.alias.get(scope), self.base.get(scope)):
            if t:
                up = self.target(t, '::'.join(scope.split('::')[:-1]) if scope in self.alias else scope)
                return self.call(up, name, depth + 1) if up and up != scope else None
        return None

    def target(self, toks, scope):
        name, _ = cppx.template_args(list(toks))
        return self.find(name, scope)


def text(t):
    return t[1:-1] if t[:1] == '"' else '?' + t


def entries(body):
    """the elements of the array in the body of a function"""
    if 'Map' not in body or '{' not in body:
        return None
    i = body.index('{')
    return [x for x in cppx.split(body[i + 1:cppx.close(body, i) - 1]) if x]


def observe(top):
    w = World(top)
    res = {'shown': {}, 'vmap': {}, 'smap': {}, 'bmap': {}, 'mmap': {}, 'units': {}, 'dd': {}}
    for c in w.cls:
        if c not in w.base or c.endswith('Common'):
            continue
        r = w.call(c, 'name') or w.call(c, 'doName')
        if r:
            res['shown'][c] = text(cppx.join(r[1][1:-1])) if r[1][0] == 'return' else '?' + cppx.join(r[1])
        if not (c, 'valueNamesMap') in w.fn:
            pass
        else:
            r = w.call(c, 'valueNamesMap')
            es = entries(r[1]) if r else None
            res['vmap'][c] = []
            for i, e in enumerate(es or []):
                if e == ['nullptr']:
                    continue
                if len(e) == 1:
                    res['vmap'][c].append(['i', i, text(e[0])])
                else:
                    a = cppx.split(e[e.index('(') + 1:-1])
                    res['vmap'][c].append(['n', cppx.join(a[0]).split('::')[-1], text(cppx.join(a[1]))])
        if (c, 'specialNamesMap') in w.fn:
            r = w.call(c, 'specialNamesMap')
            res['smap'][c] = []
            for e in (entries(r[1]) if r else None) or []:
                a = cppx.split(e[e.index('(') + 1:-1])
                res['smap'][c].append([re.sub(r'\(\)$', '', cppx.join(a[0]).split('::')[-1]), text(cppx.join(a[1]))])
        if (c, 'bitName') in w.fn:
            r = w.call(c, 'bitName')
            es = entries(r[1]) if r else None
            res['bmap'][c] = [[i, text(cppx.join(e))] for i, e in enumerate(es or []) if e != ['nullptr']]
        if (c, 'memberNamesMap') in w.fn:
            r = w.call(c, 'memberNamesMap')
            res['mmap'][c] = []
            for e in (entries(r[1]) if r else None) or []:
                j = cppx.join(e)
                m = re.match(r'(.*)::name\(\)$', j)
                q = w.call(w.find(m.group(1), r[0]), 'name') if m else None
                res['mmap'][c].append(text(cppx.join(q[1][1:-1])) if q else '?' + j)
        if (c, 'displayDecimals') in w.fn:
            r = w.call(c, 'displayDecimals')
            try:
                res['dd'][c] = int(cppx.join(r[1][1:-1]))
            except (ValueError, TypeError):
                res['dd'][c] = -1
        for a in cppx.template_args(w.base[c])[1]:
            m = re.match(r'comms::option::def::(Units\w+)$', cppx.join(a))
            if m:
                res['units'].setdefault(c, []).append(m.group(1))
    return res


if __name__ == '__main__':
    import json, sys
    print(json.dumps(observe(sys.argv[1]), indent=1))
