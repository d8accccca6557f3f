"""Runs of the real generators, recorded and validated against spec/GenTrace.tla."""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), 'tools'), HERE]
import cppx, drive, genobs, inject, optobs, nameobs, portrait, protogen, showobs

OPT = {'ns': [], 'force': -1, 'minrem': 0, 'vindep': False, 'bundles': [], 'maininopts': False, 'cust': ''}


class Run:
    """one run of a generator: documents (XML texts), options, the properties it is judged for"""
    def __init__(self, rid, docs, opt=None, want=(), app='comms', args=(), code=None):
        self.id, self.docs, self.app, self.want, self.args = rid, [drive.full(d) for d in docs], app, list(want), list(args)
        self.opt = dict(OPT, **(opt or {}))
        self.obs = None
        self.code = code        # what is supplied for injection: (snippets, other files)

    def case(self):
        return {'id': self.id, 'code': self.code, 'docs': self.docs, 'opt': self.opt, 'want': self.want, 'app': self.app, 'args': self.args}


def command(run, work):
    """command line arguments; input files are written below work"""
    a, o = [], run.opt
    if o['ns']:
        a += ['-n', ','.join(('%s:%s' % (k, v) if k else v) for k, v in o['ns'])]
    if o['force'] >= 0:
        a += ['--force-schema-version', str(o['force'])]
    if o['minrem']:
        a += ['-m', str(o['minrem'])]
    if run.app == 'comms':
        if o['vindep']:
            a += ['--version-independent-code']
        if o['maininopts']:
            a += ['--force-main-ns-in-options']
        if o['cust']:
            a += ['--customization', o['cust']]
        if o['bundles']:
            l = []
            for i, (n, ms) in enumerate(o['bundles']):
                p = os.path.join(work, 'b%d.txt' % i)
                eol = ('\n', '\r\n', '\n\n')[sum(map(len, ms)) % 3]
                with open(p, 'w', newline='') as f:
                    f.write(eol.join('.'.join(m).replace('@.', '@') for m in ms) + eol * (len(ms) % 2))
                l.append('%s@%s' % (n, p))
            a += ['--extra-messages-bundle', ','.join(l)]
    if len(run.docs) > 1 or 'multi' in run.opt:
        a += ['-s']
    return a + run.args


def uses(tree, names):
    """headers in which a name is used as identifier, macro prefix or path of an include"""
    res = {n: [] for n in names}
    for rel, path in sorted(genobs.files(tree).items()):
        for n in names:
            if n in rel.split('/'):
                res[n].append(rel)
        if not rel.endswith('.h'):
            continue
        h = cppx.Header(open(path, errors='replace').read())
        ids = set(h.toks) | {p for i in h.inc for p in i.split('/')}
        pre = {x for m, b in h.macros.items() for x in [m] + cppx.tokens(b)[0]}
        for n in names:
            if n in ids or n in pre or any(x.startswith(n.upper() + '_') for x in pre | ids):
                res[n].append(rel)
    return res


def execute(run):
    """runs the generator; the observation is a plain value"""
    work = tempfile.mkdtemp(prefix='gen')
    try:
        paths = []
        for i, d in enumerate(run.docs):
            p = os.path.join(work, 's%d.xml' % i)
            with open(p, 'w') as f:
                f.write(d)
            paths.append(p)
        out = os.path.join(work, 'out')
        app = drive.app_path(run.app)
        code, extra = run.code, {}
        if 'P23' in run.want:
            # the output without any code
            plain, base = [], os.path.join(work, 'base')
            for i, d in enumerate(run.docs):
                plain.append(os.path.join(work, 'p%d.xml' % i))
                with open(plain[-1], 'w') as f:
                    f.write(inject.OVERRIDES.sub('', d))
            extra['status0'] = subprocess.run([app, '-q', '-o', base] + command(run, work) + plain, capture_output=True, text=True, timeout=120).returncode
            if code is None:
                parsed = [drive.lex.document(d) for d in run.docs]
                docs = [(d['p']['name'][0]['s'], d) for d in parsed]
                code = inject.choose(random.Random(run.id), docs, sorted(inject.files(base)), None)
            cdir = os.path.join(work, 'code')
            inject.supply(cdir, *code)
        r = subprocess.run([app, '-q', '-o', out] + (['-c', cdir] if code else []) + command(run, work) + paths, capture_output=True, text=True, timeout=120)
        status = r.returncode
        if 'P23' in run.want:
            obs = dict(inject.compare(out, base), files=sorted(inject.files(out)), **extra)
            obs['code'] = code
        elif 'P27' in run.want:
            obs = dict(portrait.portrait(run.app, out), files=[p for p, _ in portrait.files(out)])
        elif 'P31' in run.want:
            # together with the code which is wrapped
            other = os.path.join(work, 'comms')
            c = subprocess.run([drive.app_path('comms'), '-q', '-o', other] + command(Run(run.id, [], run.opt, app='comms'), work) + (['-s'] if len(paths) > 1 else []) + paths, capture_output=True, text=True, timeout=120)
            obs = nameobs.wrappers(other, out) if status == 0 else {}
            obs.update(comms=c.returncode, files=[p for p, _ in portrait.files(out)])
        else:
            obs = genobs.observe(out, bool({'P21', 'P26'} & set(run.want)), 'P28' in run.want)
        if 'P29' in run.want:
            obs.update(optobs.observe(out))
        if 'P30' in run.want:
            obs.update(nameobs.observe(out))
        if 'P32' in run.want and status == 0:
            obs.update(showobs.observe(out))
        obs['status'] = status
        obs['uses'] = uses(out, sorted({k or 'proto' for k, v in run.opt['ns']})) if status == 0 and 'P25' in run.want else {}
        obs['text'] = r.stderr[-300:] if status else ''
        return obs
    finally:
        shutil.rmtree(work, ignore_errors=True)


def record(runs):
    with ProcessPoolExecutor(drive.NCPU) as ex:
        for run, obs in zip(runs, ex.map(execute, runs, chunksize=4)):
            run.code = obs.pop('code', None)
            run.obs = obs
    recs = []
    for i, run in enumerate(runs):
        o = dict(run.obs)
        o.pop('text')
        recs.append({'id': i, 'docs': [drive.lex.document(d) for d in run.docs], 'multi': len(run.docs) > 1, 'pfx': [],
                     'opt': run.opt, 'want': run.want, 'app': run.app, 'obs': o,
                     'inj': run.code[0] if run.code else {}, 'ords': run.code[1] if run.code else []})
    return recs


class Out:
    def __init__(self):
        self.bad, self.states, self.distinct, self.runs, self.ok, self.files = [], 0, 0, 0, 0, 0


def validate(runs, module='GenTrace', batch=400):
    """mismatches as (run, what, detail)"""
    res = Out()
    for b in range(0, len(runs), batch):
        part = runs[b:b + batch]
        work = tempfile.mkdtemp(prefix='genv')
        try:
            recs = record(part)
            path = os.path.join(work, 'jobs.ndjson')
            with open(path, 'w') as f:
                for r in recs:
                    f.write(json.dumps(r) + '\n')
            rc, text = drive.tlc(module, {'JOBS': path}, timeout=800)
            if rc != 0:
                open('/tmp/tlc.err', 'w').write(text)
                raise drive.ToolError('TLC failed (%d):\n%s' % (rc, text[:300] + '\n...\n' + text[-2500:]))
            g, d = drive.tlc_stats(text)
            res.states += g
            res.distinct += d
            res.runs += len(part)
            res.ok += sum(1 for r in part if r.obs['status'] == 0)
            res.files += sum(len(r.obs['files']) for r in part)
            for l in text.splitlines():
                if l.startswith('"MISMATCH ') or l.startswith('MISMATCH '):
                    s = json.loads(l) if l[0] == '"' else l
                    m = json.loads(s[len('MISMATCH '):])
                    res.bad.append((part[m['id']], m['what'], m['x']))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return res


# ---------------------------------------------------------------- what is run

def names(docs):
    """full names of the messages of each document"""
    def walk(n, path):
        for c in n['c']:
            nm = c['p'].get('name', [{'s': ''}])[0]['s']
            if c['t'] == 'ns':
                yield from walk(c, path + [nm])
            elif c['t'] == 'messages':
                yield from walk(c, path)
            elif c['t'] == 'message':
                yield path + [nm]
    res = []
    for d in docs:
        n = drive.lex.document(d)
        res.append((n['p']['name'][0]['s'], list(walk(n, []))))
    return res


def options(r, docs, kinds):
    o = {}
    ver = int(drive.lex.document(docs[-1])['p'].get('version', [{'s': '0'}])[0]['s'])
    last = names(docs)
    if 'ns' in kinds and r.random() < .6:
        o['ns'] = r.sample([['', 'other'], ['', 'Some_ns'], ['proto', 'named'], ['base0', 'renamed'], ['nosuch', 'unused'], ['base0', 'proto2']], r.choice([1, 1, 2, 3]))
        seen = set()
        o['ns'] = [x for x in o['ns'] if not (x[0] in seen or seen.add(x[0]))]
    if 'force' in kinds and r.random() < .5:
        o['force'] = r.randint(0, ver) if r.random() < .95 else ver + r.randint(1, 3)
    if 'minrem' in kinds and r.random() < .5:
        o['minrem'] = r.randint(0, ver + 1)
    if 'vindep' in kinds and r.random() < .2:
        o['vindep'] = True
    if 'bundles' in kinds and r.random() < .5:
        ms = list(last[-1][1]) + [['@', n] + m for n, l in last[:-1] for m in l]
        if ms:
            o['bundles'] = [[n, r.sample(ms, r.randint(1, len(ms)))] for n in r.sample(['bundle', 'Other', 'x1'], r.choice([1, 1, 2]))]
    if 'maininopts' in kinds and r.random() < .2:
        o['maininopts'] = True
    if 'cust' in kinds and r.random() < .6:
        o['cust'] = r.choice(['full', 'full', 'limited', 'none'])
    return o


# optional fields with something to depend on
KINDS = ['int', 'enum', 'set', 'set', 'float', 'string', 'data', 'list', 'bitfield', 'bundle', 'bundle', 'optional', 'optional', 'optional', 'optional']
PLAN = {
    'P19': (['bundles', 'force', 'minrem', 'ns'], dict(msgs=6, spaces=3, pplat=.8, fields=2, ifaces=2), 600),
    'P24': (['bundles', 'force', 'minrem'], dict(rich=.4, conds=.1), 600),
    'P25': (['ns'], dict(spaces=3), 500),
    'P26': (['force', 'minrem', 'ns'], dict(conds=.3, rich=.4, pver=.5), 600),
    'P21': (['force', 'minrem', 'vindep'], dict(pver=.7), 600),
    'P27': (['force', 'minrem', 'ns'], dict(pver=.5), 120),
    'P23': (['ns', 'force', 'minrem'], dict(code=.5, conds=.3), 600),
    'P29': (['maininopts', 'cust', 'ns', 'bundles', 'vindep', 'force', 'minrem'], dict(cust=.15, rich=1, pver=.5, spaces=3), 300),
    'P30': (['maininopts', 'cust', 'ns', 'bundles', 'vindep', 'force', 'minrem'], dict(cust=.15, rich=1, pver=.5, spaces=3, conds=.3, many=.1), 400),
    'P31': (['force', 'minrem', 'ns'], dict(pver=.5, spaces=3, rich=.5, conds=.2, withid=1), 100),
    'P32': (['force', 'minrem', 'ns'], dict(pver=.5, spaces=3, rich=.4, show=.5), 500),
    'P28': (['force', 'minrem', 'vindep', 'ns'], dict(conds=.7, pver=.7, kinds=KINDS), 450),
}
APPS = {'P27': ['swig', 'emscripten', 'c', 'latex'], 'P31': ['swig', 'emscripten', 'c', 'tools_qt', 'test']}


def runs_for(pid, tier, seed):
    kinds, knobs, n = PLAN[pid]
    n = n if tier == 'quick' else n * 8
    res = []
    for i in range(n):
        r = random.Random('%s-%d-%d' % (pid, seed, i))
        k = 1 if r.random() < .7 else 2
        docs = [x.xml() for x in protogen.protocol(r, k, **knobs)]
        docs = [drive.full(d) for d in docs]
        o = options(r, docs, kinds)
        for app in APPS.get(pid, ['comms']):
            res.append(Run('%s-%s-%d' % (pid, app, i), docs, o, [pid], app))
    return res


def check(pid, tier, seed):
    import run as runmod
    drive.build(['commsdsl2' + a for a in sorted(set(APPS.get(pid, []) + ['comms']))])
    r = runmod.Result()
    runs = runs_for(pid, tier, seed)
    o = validate(runs)
    seen = set()
    for run, what, x in o.bad:
        if (run.id, what) in seen or len(seen) > 10:
            continue
        seen.add((run.id, what))
        r.bad.append((what.split(' of ')[0].split('/')[0], '%s: %s' % (what, x[:800]), run.case()))
    r.coverage = {'states': o.distinct, 'transitions': o.states, 'traces_validated_against_impl': o.runs, 'runs_with_output': o.ok, 'files_checked': o.files}
    return r


def replay(d):
    c = d['case']
    drive.build(sorted({'commsdsl2' + c['app'], 'commsdsl2comms'}))
    run = Run(c['id'], c['docs'], c['opt'], c['want'], c['app'], c['args'], c.get('code'))
    o = validate([run])
    for _, what, x in o.bad:
        print('%s: %s' % (what, x))
    return 1 if o.bad else 0
