"""What the output of a generator other than commsdsl2comms says about the protocol it is for.

portrait(app, top) -> {'enums': {class: [[enumerator, value or ""]]}, 'bits': {class: [[bit, index or ""]]}, 'ids': {enumeration: [[name, value or ""]]},
'members': {class: [accessor with the class it gives]}, 'calls': {class: [accessor, class and what the
implementation uses]}, 'cases': {class: [position, member]} of variants, 'lists': {where: [message]}, 'numbers': {message: id}, 'versions': {where: number},
'specials': {class: [special value]} with 'given' what the implementation gives for them, 'values': {section: [[special value, number]]}, 'types': {class: type
of the value}, 'bases': {class: the C++ class it is for}, 'details': {section: [[property, text]]}, 'loose': functions
whose declaration and definition do not agree}"""
import os, re

ACC = r'((?:field|transportField|initField|accessField|layer)_\w+)'


def files(top):
    for d, ds, fs in os.walk(top):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not os.path.islink(p):
                with open(p, encoding='utf-8', errors='replace') as h:
                    yield os.path.relpath(p, top), h.read()


def plain(text):
    """C++ without comments"""
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    return re.sub(r'//[^\n]*', '', text)


def items(body):
    res = []
    for x in body.split(','):
        m = re.match(r'\s*(\w+)\s*(?:=\s*(.*?))?\s*$', x, re.S)
        if m:
            res.append([m.group(1), re.sub(r'\s+', '', m.group(2) or '')])
    return res


def blocks(text, head):
    """(match, body) of each brace block after a head"""
    for m in re.finditer(head, text):
        i = text.find('{', m.end())
        if i < 0 or ';' in text[m.end():i]:
            continue
        n, k = 1, i + 1
        while n and k < len(text):
            n += {'{': 1, '}': -1}.get(text[k], 0)
            k += 1
        yield m, text[i + 1:k - 1]


def number(v):
    m = re.match(r'^(-?\d+)[uUlL]*$', v)
    if m:
        return m.group(1)
    m = re.match(r'^(-?0x[0-9a-fA-F]+)[uUlL]*$', v)
    return str(int(m.group(1), 16)) if m else v


def numbers(its):
    return [[n, number(v)] for n, v in its]


def swig(top, res):
    for path, text in files(top):
        t = plain(text)
        if path.endswith('.i'):
            for m in re.finditer(r'using\s+(\w*AllMessages)\s*=\s*std::tuple<(.*?)>\s*;', t, re.S):
                res['lists'][m.group(1)] = re.findall(r'\w+', m.group(2))
            bases(r'\bclass\s+(\w+)\s*:\s*public\s+([^{;]*)', t, res)
            for m, body in blocks(t, r'\bclass\s+(\w+)'):
                f = re.findall(r'(?<!const )\b(\w+)\s*&\s*' + ACC + r'\s*\(\s*\)\s*\{\s*return\s+static_cast<(\w+)&>\(Base::(\w+)\(\)\)\s*;', body)
                if f:
                    res['calls'][m.group(1)] = ['%s %s %s' % (n, k if k == k2 else '?' + k2, b) for k, n, k2, b in f]
                f = re.findall(r'case\s+(\d+)\s*:\s*handler\.handle_(\w+)\(\s*accessField_(\w+)\(\)\s*\)', body)
                if f:
                    res['cases'][m.group(1)] = [[i, a if a == b else a + '?' + b] for i, a, b in f]
            res['lists']['includes of ' + path] = sorted(re.findall(r'%include\s+"include/([^"]+)"', t))
            continue
        for m, body in blocks(t, r'\benum\s+(?!class\b)(\w+)\s*:[^{;]*'):
            if 'BitIdx' != m.group(1):
                res['ids'][m.group(1)] = numbers(items(body))
        for m, body in blocks(t, r'\bclass\s+(\w+)'):
            c = m.group(1)
            for _, b in blocks(body, r'\benum\s+class\s+ValueType\b[^{;]*'):
                res['enums'][c] = numbers(items(b))
            for _, b in blocks(body, r'\benum\s+BitIdx\b[^{;]*'):
                res['bits'][c] = numbers(items(b))
            f = re.findall(r'(\w+)\s*&\s*' + ACC + r'\s*\(', body)
            if f:
                res['members'][c] = ['%s %s' % (n, k) for k, n in f]
            f = specials(re.findall(r'\b(value|is|set)([A-Z]\w*)\s*\(\s*\)', body), re.findall(r'\bstatic\s+ValueType\s+value(\w+)', body))
            if f:
                res['specials'][c] = f
            f = re.search(r'\busing\s+ValueType\s*=\s*([\w :]+);', body)
            if f:
                res['types'][c] = f.group(1).strip()
            if c.endswith('MsgHandler'):
                res['lists'][c] = re.findall(r'\bhandle_(\w+)\s*\(\s*\w+\s*&', body)
            elif re.search(r'(^|_)message_\w+$', c) and ':' in t[m.end():t.find('{', m.end())]:
                res['members'].setdefault(c, [])
        for m in re.finditer(r'#define\s+(\w+)_SPEC_VERSION\s+\(?(\w+)', text):
            res['versions'][m.group(1)] = number(m.group(2))


def emscripten(top, res):
    for path, text in files(top):
        t = plain(text)
        for m in re.finditer(r'using\s+(\w*AllMessages)\s*=\s*std::tuple<(.*?)>\s*;', t, re.S):
            res['lists'][m.group(1)] = re.findall(r'\w+', m.group(2))
        for m in re.finditer(r'emscripten::enum_<([\w:]+)>\s*\(\s*"(\w+)"\s*\)(.*?);', t, re.S):
            vs = re.findall(r'\.value\s*\(\s*"(\w+)"\s*,\s*([\w:]+)\s*\)', m.group(3))
            n = m.group(2)
            its = [[a, '' if b.split('::')[-1].endswith(a) else b] for a, b in vs]
            if n.endswith('_ValueType'):
                res['enums'][n[:-len('_ValueType')]] = its
            elif n.endswith('_BitIdx'):
                res['bits'][n[:-len('_BitIdx')]] = its
            else:
                res['ids'][n] = its
        for m in re.finditer(r'emscripten::class_<(\w+)[^;]*?>\s*\(\s*"(\w+)"\s*\)(.*?);', t, re.S):
            k = re.findall(r'function\s*\(\s*"(value|is|set)([A-Z]\w*)"\s*,\s*&' + m.group(2) + r'::(\w+)\s*\)', m.group(3))
            k = specials([(a, b) for a, b, x in k if x == a + b], re.findall(r'class_function\s*\(\s*"value(\w+)"', m.group(3)))
            if k:
                res['specials'][m.group(2)] = k
            f = re.findall(r'\.function\s*\(\s*"' + ACC + r'"\s*,\s*&(\w+)::(\w+)', m.group(3))
            f = [n if k == m.group(2) and x in (n, n + '_') else n + '?' + x for n, k, x in f]
            if f or re.search(r'(^|_)message_\w+$', m.group(2)) and 'emscripten::base' in m.group(0):
                res['members'][m.group(2)] = f
        if path.endswith('.h'):
            bases(r'\bclass\s+(\w+)\s*:\s*public\s+([^{;]*)', t, res)
            for m, body in blocks(t, r'\bclass\s+(\w+)'):
                f = re.findall(r'\bstatic\s+ValueType\s+value(\w+)\s*\(\s*\)\s*\{\s*return\s+Base::value(\w+)\(\)\s*;', body)
                if f:
                    res['given'][m.group(1)] = [a if a == b else a + '?' + b for a, b in f]
                f = re.findall(r'(?<!const )\b(\w+)\s*\*\s*' + ACC + r'\s*\(\s*\)\s*\{\s*return\s+static_cast<(\w+)\*>\(&(?:Base::)?(\w+)\(\)\)\s*;', body)
                f = ['%s %s %s' % (n[:-1] if n.endswith('_') else n, k if k == k2 else '?' + k2, b) for k, n, k2, b in f]
                if f:
                    res['calls'][m.group(1)] = f
                f = re.findall(r'case\s+(\d+)\s*:\s*handler\.handle_(\w+)\(\s*accessField_(\w+)\(\)\s*\)', body)
                if f:
                    res['cases'][m.group(1)] = [[i, a if a == b else a + '?' + b] for i, a, b in f]
        if path.endswith('MsgHandler.h'):
            for m, body in blocks(t, r'\bclass\s+(\w*MsgHandler)\b'):
                res['lists'][m.group(1)] = re.findall(r'\bhandle_(\w+)\s*\(\s*\w+\s*[*&]', body)
        for m in re.finditer(r'#define\s+(\w+)_SPEC_VERSION\s+\(?(\w+)', text):
            res['versions'][m.group(1)] = number(m.group(2))


def bases(head, t, res):
    """the C++ class (without its arguments) behind a class"""
    for m in re.finditer(head, t):
        b, k = '', 0
        for x in m.group(2):
            k += {'<': 1, '>': -1}.get(x, 0)
            b += x if not k and x not in '> \n' else ''
        res['bases'].setdefault(m.group(1), b.lstrip(':'))


def signature(m):
    """return type and types of parameters"""
    ps = []
    for p in m.group(3).split(','):
        w = p.replace('*', ' * ').split()
        ps.append(' '.join(w[:-1] if len(w) > 1 and w[-1] != '*' and not (len(w) == 2 and w[0] == 'const') else w))
    return [re.sub(r'\s+', '', m.group(1)), ps]


def specials(funcs, names):
    """names of special values; those without all their functions are marked"""
    return [x if {('value', x), ('is', x), ('set', x)} <= set(funcs) else x + '?' for x in names]


def c(top, res):
    declared, defined = {}, {}
    for path, text in files(top):
        t = plain(text)
        if path.startswith('include/'):
            for m in re.finditer(r'typedef\s+enum\s*(?:\w+\s*)?\{(.*?)\}\s*(\w+)\s*;', t, re.S):
                n, its = m.group(2), numbers(items(m.group(1)))
                # what is defined inside an optional field is named after the field in it
                inner = re.sub(r'Field_(ValueType|BitIdx|FieldIdx)$', r'_\1', n)
                pre = n + '_' if all(a.startswith(n + '_') for a, v in its) else inner + '_'
                its = [[a[len(pre):] if a.startswith(pre) else '?' + a, v] for a, v in its]
                if n.endswith('_ValueType'):
                    res['enums'][n[:-len('_ValueType')]] = its
                elif n.endswith('_BitIdx'):
                    res['bits'][n[:-len('_BitIdx')]] = its
                else:
                    res['ids'][n] = its
            for m in re.finditer(r'\b(\w+)\s*\*\s*(\w+)\s*\(\s*(\w+)\s*\*', t):
                a = re.match(re.escape(m.group(3)) + '_' + ACC + '$', m.group(2))
                if a:
                    res['members'].setdefault(m.group(3), []).append('%s %s' % (a.group(1), m.group(1)))
            for m in re.finditer(r'typedef\s+struct\s*\{(.*?)\}\s*(\w+)_FrameValues\s*;', t, re.S):
                res['members'][m.group(2)] = [x for x in re.findall(r'\bm_(\w+)', m.group(1)) if not (x.endswith('Len') and 'm_' + x[:-3] + ';' in m.group(1))]
            for m in re.finditer(r'\b(\w+)_doGetId\s*\(', t):
                res['members'].setdefault(m.group(1), [])
            if path.endswith('MsgHandler.h'):
                for m in re.finditer(r'typedef\s+struct\s*\w*\s*\{(.*?)\}\s*(\w+)\s*;', t, re.S):
                    res['lists'][m.group(2)] = re.findall(r'\(\s*\*\s*handle_(\w+)\s*\)', m.group(1))
            for m in re.finditer(r'\b(\w+)_ValueType\s+(\w+)_value(\w+)\s*\(', t):
                if m.group(1) == m.group(2):
                    res['specials'].setdefault(m.group(1), []).append(m.group(3))
            for m in re.finditer(r'\btypedef\s+([\w ]+?)\s+(\w+)_ValueType\s*;', t):
                res['types'][m.group(2)] = m.group(1)
            if path.endswith('.h'):
                for m in re.finditer(r'^\s*([\w ]+?[\s*]+)(\w+)\s*\(([^();{}]*)\)\s*;', t, re.M):
                    declared[m.group(2)] = signature(m)
        elif path.endswith('.h'):
            bases(r'\busing\s+(\w+)_comms\s*=\s*([^;]*)', t, res)
            bases(r'\bclass\s+(\w+)_comms\s*:\s*public\s+([^{;]*)', t, res)
        elif path.endswith('.cpp'):
            for m in re.finditer(r'^([\w ]+?[\s*]+)(\w+)\s*\(([^();{}]*)\)\s*\{', t, re.M):
                if m.group(2) not in ('if', 'for', 'while', 'switch'):
                    defined[m.group(2)] = signature(m)
            for m in re.finditer(r'\b(\w+)_ValueType\s+(\w+)_value(\w+)\s*\(\s*\)\s*\{[^{}]*?(\w+)_comms::value(\w+)\(\)', t):
                a, b = m.group(3), m.group(5)
                res['given'].setdefault(m.group(2), []).append(a if a == b and m.group(4) == m.group(2) else a + '?' + b)
            for m in re.finditer(r'\b(\w+)\s*\*\s*(\w+)\s*\(\s*(\w+)\s*\*\s*\w+\s*\)\s*\{\s*return[^;{}]*->(\w+)\(\)\)\)\s*;', t):
                a = re.match(re.escape(m.group(3)) + '_' + ACC + '$', m.group(2))
                if a:
                    res['calls'].setdefault(m.group(3), []).append('%s %s %s' % (a.group(1), m.group(1), m.group(4)))
            for m in re.finditer(r'\bcase\s+(\d+|\w+_FieldIdx_\w+)\s*:[^;{}]*\{?[^;{}]*handle_(\w+)\(\s*(\w+)_accessField_(\w+)\(', t):
                i = m.group(1)
                pre = m.group(3) + '_FieldIdx_'
                if m.group(3).endswith('Field') and not i.startswith(pre):
                    pre = m.group(3)[:-len('Field')] + '_FieldIdx_'
                i = i[len(pre):] if i.startswith(pre) else i
                res['cases'].setdefault(m.group(3), []).append([i, m.group(2) if m.group(2) == m.group(4) else m.group(2) + '?' + m.group(4)])
        elif path.endswith('InputMessages.h'):
            for m in re.finditer(r'using\s+(\w+)\s*=\s*([\w:]+)\s*(<|;)', t):
                res['lists'][m.group(1)] = [m.group(2)]
        for m in re.finditer(r'#define\s+(\w+)_SPEC_VERSION\s+\(?(\w+)', text):
            res['versions'][m.group(1)] = number(m.group(2))
    # functions of the headers are those of the sources
    loose = {x for x in set(declared) | set(defined) if declared.get(x) != defined.get(x)}
    # and nothing else is referred to
    roots = tuple(x + '_' for x in {p.split('/')[2] for p, _ in files(top) if p.startswith('include/cc_c/')})
    known, used = set(), set()
    for path, text in files(top):
        if path.endswith(('.h', '.cpp')):
            (known if path.endswith(('.h', 'InputMessages.cpp')) else used).update(x for x in re.findall(r'(?<![\w:])[A-Za-z_]\w*', plain(text)) if x.startswith(roots))
    res['loose'] = sorted(loose | (used - known))


def rows(text):
    return [[y.strip() for y in x.split('&')] for x in re.split(r'\\\\(?:\\hline)?', text)]


def latex(top, res):
    for path, text in files(top):
        if not path.endswith('.tex'):
            continue
        t = re.sub(r'(?<!\\)%[^\n]*', '', text)
        res['lists']['inputs of ' + path] = re.findall(r'\\input\{([^}]*)\}', t)
        # what each labelled table says
        parts = re.split(r'\\label\{([^}]*)\}', t)
        for label, body in zip(parts[1::2], parts[2::2]):
            m = re.search(r'\\textbf\{ID\}\s*&\s*(-?\d+)', body)
            if label.endswith('_details') and m:
                res['numbers'][label[:-len('_details')]] = m.group(1)
            m = re.search(r'\\begin\{tabular\}\{[^\n]*\n(.*?)\\end\{tabular\}', body, re.S)
            if label.endswith('_details') and m:
                ds = [[re.sub(r'^\s*\\textbf\{([^}]*)\}$', r'\1', r[0]), re.sub(r' \(0x[0-9a-fA-F]+\)', '', r[1])] for r in rows(m.group(1)) if len(r) == 2]
                res['details'][label[:-len('_details')]] = ds
            rs = rows(re.split(r'\\hline\s*\\hline', m.group(1))[-1]) if m else []
            if label.endswith('_values') and m:
                res['enums'][label[:-len('_values')]] = [[r[1], r[0].split(' ')[0]] for r in rs if len(r) >= 2]
            elif label.endswith('_specials') and m:
                res['values'][label[:-len('_specials')]] = [[r[1], r[0].split(' ')[0]] for r in rs if len(r) >= 2]
            elif label.endswith('_bits') and m:
                res['bits'][label[:-len('_bits')]] = [[r[2], r[0]] for r in rs if len(r) >= 3 and r[2]]
            elif label.endswith(('_fields', '_members')) and m:
                names = [re.sub(r'^\\hyperref\[[^\]]*\]\{(.*)\}$', r'\1', r[-1]) for r in rs if len(r) >= 2]
                res['members'][label.rsplit('_', 1)[0]] = [re.sub(r' \(optional\)$', '', re.sub(r'\\hyperref\[[^\]]*\]\{(.*?)\}', r'\1', x)).replace('\\_', '_') for x in names]


def tools_qt(top, res):
    for path, text in files(top):
        t = plain(text)
        if path.endswith('MsgFactory.cpp'):
            res['lists'][path] = re.findall(r'ToolsMessagePtr\s*\(\s*new\s+([\w:]+)', t)
        if re.search(r'/message/\w+\.cpp$', path):
            m = re.search(r'ToolsMessageBase<\s*([\w:]+)\s*,\s*([\w:]+)', t)
            res['members'][path] = [m.group(1), m.group(2)] if m else []
        for m in re.finditer(r'#define\s+(\w+)_SPEC_VERSION\s+\(?(\w+)', text):
            res['versions'][m.group(1)] = number(m.group(2))
        for m in re.finditer(r'static_assert\s*\(\s*\(?(\d+)U?\)?\s*==\s*(\w+)_SPEC_VERSION|(\w+)_SPEC_VERSION\s*==\s*\(?(\d+)', t):
            res['versions'][m.group(2) or m.group(3)] = m.group(1) or m.group(4)


def test(top, res):
    for path, text in files(top):
        d = dict(re.findall(r'#define\s+(\w+)\s+\((\d+)\)', text))
        for m in re.finditer(r'static_assert\s*\(\s*(\w+)\s*==\s*(\w+)_SPEC_VERSION', text):
            res['versions'][m.group(2)] = d.get(m.group(1), m.group(1))


APPS = {'swig': swig, 'emscripten': emscripten, 'c': c, 'latex': latex, 'tools_qt': tools_qt, 'test': test}


def portrait(app, top):
    res = {k: {} for k in ('enums', 'bits', 'ids', 'members', 'calls', 'cases', 'lists', 'numbers', 'versions',
                             'specials', 'given', 'types', 'bases', 'details', 'values')}
    res['loose'] = []
    APPS[app](top, res)
    bare = lambda n, pre: n[len(pre):] if n.startswith(pre) else n
    res['ids'] = {k: [[bare(bare(n, k + '_'), 'MsgId_'), x] for n, x in v] for k, v in res['ids'].items() if re.search(r'(^|_)MsgId$', k)}
    res['bits'] = {k: [[bare(n, 'BitIdx_'), x] for n, x in v] for k, v in res['bits'].items()}
    res['enums'] = {k: v for k, v in res['enums'].items() if not k.endswith('ErrorStatus')}
    return res


if __name__ == '__main__':
    import json, sys
    print(json.dumps(portrait(sys.argv[1], sys.argv[2]), indent=1))
