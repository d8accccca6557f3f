"""Runs the real parser on documents and validates what was observed against spec/Trace.tla."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
import lex

NODEP = 2000000000
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
APPS = ['comms', 'test', 'tools_qt', 'swig', 'emscripten', 'latex', 'c']


class ToolError(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


# ---------------------------------------------------------------- building

def _sync(src, dst):
    """dst becomes a copy of the sources in src; only files with another content are touched"""
    want = {}
    for top in ('CMakeLists.txt', 'cmake', 'lib', 'app', 'script'):
        p = os.path.join(src, top)
        if os.path.isfile(p):
            want[top] = p
        for root, dirs, files in os.walk(p):
            rel = os.path.relpath(root, src)
            tests = '/test/' in '/' + rel + '/'
            for f in files:
                if tests and f != 'CMakeLists.txt':
                    continue
                want[os.path.join(rel, f)] = os.path.join(root, f)
    for root, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.normpath(os.path.join(os.path.relpath(root, dst), f))
            if r not in want:
                os.remove(os.path.join(root, f))
    for r, p in want.items():
        t = os.path.join(dst, r)
        data = open(p, 'rb').read()
        if os.path.exists(t) and open(t, 'rb').read() == data:
            continue
        os.makedirs(os.path.dirname(t), exist_ok=True)
        with open(t, 'wb') as f:
            f.write(data)


def build(targets=('cdump',)):
    """builds the parser projector and the generators from the current tree of REPO"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = os.path.join(BUILD, 'src')
        _sync(REPO, src)
        out = os.path.join(BUILD, 'out')
        log = os.path.join(BUILD, 'build.log')
        env = dict(os.environ, CC='gcc', CXX='g++')
        with open(log, 'w') as lf:
            r = 0
            if not os.path.exists(os.path.join(out, 'build.ninja')):
                r = subprocess.call(
                    ['cmake', '-S', os.path.join(VERIF, 'harness'), '-B', out, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug',
                     '-DREPO=' + src, '-DCOMMSDSL_WARN_AS_ERR=OFF', '-DCMAKE_CXX_FLAGS=-D_GLIBCXX_ASSERTIONS -O1']
                    + ['-DCOMMSDSL_BUILD_COMMSDSL2%s=ON' % a.upper() for a in APPS], stdout=lf, stderr=lf, env=env)
            if r == 0:
                r = subprocess.call(['ninja', '-C', out] + list(targets), stdout=lf, stderr=lf, env=env)
        if r != 0:
            raise ToolError('build failed, see ' + log + '\n' + open(log).read()[-3000:])
    return out


def app_path(app):
    return os.path.join(BUILD, 'out', 'commsdsl', 'app', 'commsdsl2' + app, 'src', 'commsdsl2' + app)


# ---------------------------------------------------------------- canonical observation

def _w(x):
    return lex.W(int(x[1:]))


BIGT = ('uint64', 'uintvar')


def _dv(x):
    b = int(x[1:], 16)
    e, m = (b >> 52) & 0x7ff, b & ((1 << 52) - 1)
    if e == 0x7ff and m:
        return lex.NAN
    return lex.W(-(b & ((1 << 63) - 1)) if b >> 63 else b)


def _ver(o):
    o['dep'] = NODEP if o['dep'] == -1 else o['dep']
    return o


def _extras(o):
    xa = {}
    for a in o.pop('xattr', []):
        xa.setdefault(a['k'], []).append(a['v'])
    o['xattr'] = xa
    o['xelem'] = o.get('xelem', 0)


def _named(l, val):
    r = {}
    for x in l:
        n = x.pop('name')
        if 'val' in x:
            x['val'] = val(x['val'])
        r[n] = _ver(x)
    return r


def c_field(f):
    if 'ext' in f or 'invalid' in f:
        return f
    _ver(f)
    for k in ('minl', 'maxl', 'bits'):
        f[k] = _w(f[k])
    f['ovr'] = [int(c) for c in f['ovr']]
    _extras(f)
    k = f['kind']
    if k in ('int', 'enum'):
        def val(x):
            v = int(x[1:])
            return lex.W(v + (1 << 64) if v < 0 and f['type'] in BIGT else v)
        if k == 'int':
            for p in ('serOff', 'scn', 'scd', 'doff'):
                f[p] = _w(f[p])
            for p in ('min', 'max', 'def'):
                f[p] = val(f[p])
            f['ranges'] = [_ver(dict(r, min=val(r['min']), max=val(r['max']))) for r in f['ranges']]
            f['specials'] = _named(f['specials'], val)
        else:
            f['def'] = val(f['def'])
            f['vals'] = _named(f['vals'], val)
            f['rev'] = [dict(r, val=val(r['val'])) for r in f['rev']]
            if f['type'] in BIGT:      # kept as signed numbers: order of the reported list starts at 2^63
                f['rev'].sort(key=lambda r: r['val'])
    elif k == 'set':
        f['bitsl'] = _named(f['bitsl'], None)
    elif k == 'float':
        f['def'] = _dv(f['def'])
        f['ranges'] = [_ver(dict(r, min=_dv(r['min']), max=_dv(r['max']))) for r in f['ranges']]
        f['specials'] = _named(f['specials'], _dv)
    elif k in ('string', 'data'):
        f['flen'] = int(f['flen'][1:])
        vv = {}
        for x in f['vv']:
            _ver(x)
            key = '%s|%d|%d' % (x['v'], x['since'], x['dep'])
            vv[key] = vv.get(key, 0) + 1
        f['vv'] = vv
    elif k == 'list':
        f['fcount'] = int(f['fcount'][1:])
    elif k == 'variant':
        f['defi'] = _w(f['defi'])
    for p in ('lenp', 'elem', 'cp', 'lp', 'elp', 'ts', 'ref', 'field'):
        if p in f and isinstance(f[p], dict):
            c_field(f[p])
    for m in f.get('members', []):
        c_field(m)
    return f


def c_elem(m):
    _extras(m)
    for f in m.get('fields', []):
        c_field(f)
    if 'id' in m:
        _ver(m)
        for p in ('id', 'minl', 'maxl'):
            m[p] = _w(m[p])
        m['ovr'] = [int(c) for c in m['ovr']]
        m['platforms'] = {p: 1 for p in m['platforms']}
    for l in m.get('layers', []):
        _extras(l)
        if 'field' in l:
            c_field(l['field'])
        if l['kind'] == 'sync':
            del l['esc']
            if 'escf' in l:
                c_field(l['escf'])
        if l['kind'] == 'value':
            c = {}
            for x in l['ifaces']:
                c[x] = c.get(x, 0) + 1
            l['ifaces'] = c
            l['fidx'] = _w(l['fidx'])
    return m


def _byname(l):
    r = {}
    for x in l:
        if x['name'] in r:
            r['(listed twice) ' + x['name']] = x
        r[x['name']] = x
    return r


def c_ns(n):
    _extras(n)
    n['nss'] = _byname([c_ns(x) for x in n['nss']])
    n['fields'] = _byname([c_field(x) for x in n['fields']])
    for k in ('msgs', 'ifaces', 'frames'):
        n[k] = _byname([c_elem(x) for x in n[k]])
    return n


def c_schema(s):
    _extras(s)
    s['platforms'] = {p: 1 for p in s['platforms']}
    s['nss'] = _byname([c_ns(x) for x in s['nss']])
    s['all'] = s.pop('all')
    return s


# ---------------------------------------------------------------- jobs

class Job:
    """one use of the parser: documents (XML texts) and calls, 'P<i>' or 'V'"""
    def __init__(self, jid, docs, ops=None, multi=False, pfx=(), tag=''):
        self.id, self.docs, self.multi, self.pfx, self.tag = jid, docs, multi, list(pfx), tag
        self.ops = ops or ['P%d' % i for i in range(len(docs))] + ['V']


_PRE = '<?xml version="1.0" encoding="UTF-8"?>'


def full(doc):
    return doc if doc.lstrip().startswith('<?xml') else _PRE + doc


def cdump(jobs, work, exe=None):
    """raw observations of the real parser by job id"""
    exe = exe or os.path.join(BUILD, 'out', 'cdump')
    lines = []
    for n, jb in enumerate(jobs):
        paths = []
        for i, d in enumerate(jb.docs):
            p = os.path.join(work, 'd%d_%d.xml' % (n, i))
            with open(p, 'w') as f:
                f.write(full(d))
            paths.append(p)
        ops = ['E' + x for x in jb.pfx] + [('P' + paths[int(o[1:])] if o[0] == 'P' else o) for o in jb.ops]
        lines.append('\t'.join([str(n), 'm' if jb.multi else '-'] + ops))
    k = max(1, min(NCPU, len(lines) // 20 + 1))
    chunks = [lines[i::k] for i in range(k)]

    def one(ch):
        r = subprocess.run([exe], input='\n'.join(ch) + '\n', capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError('cdump failed: ' + r.stderr[-500:])
        return r.stdout
    res = {}
    with ThreadPoolExecutor(k) as ex:
        for out in ex.map(one, chunks):
            for l in out.splitlines():
                d = json.loads(l)
                res[int(d['id'])] = d
    return [res[n] for n in range(len(jobs))], [l.split('\t') for l in lines]


def record(jobs, work):
    """the ndjson records of Trace.tla"""
    raws, lines = cdump(jobs, work)
    recs = []
    for n, (jb, raw) in enumerate(zip(jobs, raws)):
        nodes = [lex.document(full(d)) for d in jb.docs]
        rec = {'id': n, 'multi': jb.multi, 'pfx': jb.pfx, 'docs': nodes,
               'ops': [{'op': o[0], 'd': int(o[1:]) + 1 if o[0] == 'P' else 0} for o in jb.ops]}
        blank = {'crash': True, 'res': False, 'err': False, 'warn': 0, 'schemas': [], 'all': []}
        obs = []
        if 'crash' in raw:
            obs = [dict(blank, crash=True) for _ in jb.ops]
            jb.seen = 'crash %s' % raw['crash']
        else:
            schemas = [c_schema(s) for s in raw['schemas']]
            alls = [s.pop('all') for s in schemas]
            at = raw['marks'][len(jb.pfx) - 1] if jb.pfx else 0
            for i in range(len(jb.ops)):
                k = i + len(jb.pfx)
                log = raw['log'][at:raw['marks'][k]]
                at = raw['marks'][k]
                obs.append({'crash': False, 'res': raw['res'][k], 'err': any(x['l'] >= 3 for x in log),
                            'warn': sum(1 for x in log if x['l'] == 2), 'schemas': schemas if jb.ops[i] == 'V' else [],
                            'all': alls})
            jb.seen = raw['res'][len(jb.pfx):]
            jb.log = raw['log']
        rec['obs'] = obs
        rec['skip'] = any(d.get('bigu') for d in nodes)
        if rec['skip']:
            rec['docs'] = []
            rec['obs'] = [dict(o, schemas=[], all=[]) for o in obs]
        recs.append(rec)
    return recs


TLA_CP = '/opt/veriftools/tla/tla2tools.jar'


def tlc(module, env=None, cfg=None, workers=None, timeout=800, mem='6g', extra=()):
    meta = tempfile.mkdtemp(prefix='tlc')
    try:
        e = dict(os.environ)
        e.update(env or {})
        e['TLC_JAVA_OPTS'] = ''
        cp = [TLA_CP] + [os.path.join('/opt/veriftools/tla', f) for f in sorted(os.listdir('/opt/veriftools/tla'))
                         if f.endswith('.jar') and f != 'tla2tools.jar']
        cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC', '-cp', ':'.join(cp), 'tlc2.TLC', '-metadir', meta, '-workers',
               str(workers or NCPU), '-config', cfg or module + '.cfg', *extra, module + '.tla']
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    import re
    m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states', out.replace('\n', ' '))
    return (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)


class Outcome:
    def __init__(self):
        self.mism, self.states, self.distinct, self.traces, self.skipped = [], 0, 0, 0, 0


def check(jobs, work=None, keep=None, batch=4000, timeout=800):
    """validates every job against the specification; mismatches as (job, what, call, model)"""
    out = Outcome()
    own = work is None
    work = work or tempfile.mkdtemp(prefix='drive')
    try:
        for b in range(0, len(jobs), batch):
            part = jobs[b:b + batch]
            recs = record(part, work)
            out.skipped += sum(1 for r in recs if r['skip'])
            path = os.path.join(work, 'jobs.ndjson')
            with open(path, 'w') as f:
                for r in recs:
                    f.write(json.dumps(r) + '\n')
            rc, text = tlc('Trace', {'JOBS': path}, timeout=timeout)
            if rc != 0:
                open('/tmp/tlc.err', 'w').write(text)
                raise ToolError('TLC failed (%d):\n%s' % (rc, text[:300] + '\n...\n' + text[-2500:]))
            g, d = tlc_stats(text)
            out.states += g
            out.distinct += d
            out.traces += len(recs)
            for l in text.splitlines():
                if l.startswith('"MISMATCH ') or l.startswith('MISMATCH '):
                    s = json.loads(l) if l[0] == '"' else l
                    m = json.loads(s[len('MISMATCH '):])
                    r = recs[m['id']]
                    out.mism.append((part[m['id']], m['what'], m['call'], m['model'], r['obs'][min(m['call'], len(r['obs'])) - 1]))
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)
    return out


def diff(a, b, path=''):
    """differences of model a and observation b"""
    if type(a) != type(b):
        if a in ({}, []) and b in ({}, []):
            return []
        return ['%s: model %s, observed %s' % (path, json.dumps(a)[:200], json.dumps(b)[:200])]
    if isinstance(a, dict):
        r = []
        for k in sorted(set(a) | set(b)):
            if k not in a:
                r.append('%s.%s: only observed: %s' % (path, k, json.dumps(b[k])[:200]))
            elif k not in b:
                r.append('%s.%s: only in model: %s' % (path, k, json.dumps(a[k])[:200]))
            else:
                r += diff(a[k], b[k], path + '.' + k)
        return r
    if isinstance(a, list):
        if len(a) != len(b):
            return ['%s: model %s, observed %s' % (path, json.dumps(a)[:200], json.dumps(b)[:200])]
        r = []
        for i, (x, y) in enumerate(zip(a, b)):
            r += diff(x, y, '%s[%d]' % (path, i))
        return r
    return [] if a == b else ['%s: model %s, observed %s' % (path, json.dumps(a), json.dumps(b))]


def explain(m):
    job, what, call, model, obs = m
    if what == 'model':
        return '%s: %s' % (what, '; '.join(diff(model, obs['schemas'])[:6]))
    if what == 'warnings':
        return 'warnings: model %s, observed %s' % (model, obs['warn'])
    return '%s (call %d) model %s' % (what, call, json.dumps(model)[:300])
