"""Histories of generator runs, recorded and validated against spec/Runs.tla."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), 'tools'), HERE]
import drive, genrun, protogen

DIRS = {'A': 'out', 'B': 'deep/er/out dir', 'C': 'cwd', 'F': 'fresh', 'G': 'fresh2', 'H': 'fresh3'}
NAMES = ['NoSuch', 'Missing9', 'nosuch']
OPTX = {'msgs': [], 'plat': '', 'iface': [], 'code': []}


def listing(top):
    res = []
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if not os.path.islink(p):
                with open(p, 'rb') as h:
                    res.append([os.path.relpath(p, top), hashlib.sha1(h.read()).hexdigest()[:12]])
    return sorted(res)


def listed(lines, r):
    """contents of a file with a list: ends of lines, empty lines and the end of the file are no part of it"""
    eol = r.choice(['\n', '\n', '\r\n', '\n\n'])
    return r.choice(['', '', eol]) + eol.join(lines) + r.choice([eol, eol, ''])


class Hist:
    """ins: document sets; opts: option sets; plan: steps as dicts with 'in' an index into ins, 'opt' an index into opts"""
    def __init__(self, hid, app, ins, opts, plan, want, seed):
        self.id, self.app, self.ins, self.opts, self.plan, self.want, self.seed = hid, app, [[drive.full(d) for d in x] for x in ins], opts, plan, list(want), seed
        self.steps = None

    def case(self):
        return {'id': self.id, 'app': self.app, 'ins': self.ins, 'opts': self.opts, 'plan': self.plan, 'want': self.want, 'seed': self.seed, 'kind': 'history'}


def selection(app, opt, work, r=None):
    a = []
    if opt.get('msgs'):
        p = os.path.join(work, 'msgs.txt')
        with open(p, 'w', newline='') as f:
            f.write(listed(['.'.join(m).replace('@.', '@') for m in opt['msgs']], r or random.Random(1)))
        a += ['--messages-list', p]
    if opt.get('plat'):
        a += ['--force-platform', opt['plat']]
    if opt.get('iface'):
        a += ['--force-interface', '.'.join(opt['iface'])]
    return a


def owncode(opt, where):
    """the directory with the user's own code: files older than anything generated"""
    if not opt.get('code'):
        return []
    if not os.path.isdir(where):
        for p, t in opt['code']:
            f = os.path.join(where, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'w') as h:
                h.write(t)
            os.utime(f, (10 ** 9, 10 ** 9))
    return ['-c', where]


def env(step, top, r):
    """what the surroundings do to a directory"""
    files = [p for p, _ in listing(top)]
    if step['x'] == 'extra' or not files:
        os.makedirs(os.path.join(top, 'some'), exist_ok=True)
        with open(os.path.join(top, 'some', 'other.h'), 'w') as f:
            f.write('kept')
    elif step['x'] == 'tamper':
        for p in files:
            if r.random() < .6:
                with open(os.path.join(top, p), 'a') as f:
                    f.write('// changed\n' * r.randint(1, 400))
            elif r.random() < .5:
                open(os.path.join(top, p), 'w').close()
    elif step['x'] == 'remove':
        for p in files:
            if r.random() < .5:
                os.unlink(os.path.join(top, p))


def block(top, p, how):
    """makes the path p below top impossible to write; how to undo it"""
    t = os.path.join(top, p)
    os.makedirs(os.path.dirname(t), exist_ok=True)
    if os.path.isdir(t):
        shutil.rmtree(t)
    elif os.path.lexists(t):
        os.unlink(t)
    if how == 'full':
        os.symlink('/dev/full', t)
    elif how == 'dir':
        os.makedirs(os.path.join(t, 'x'))
    else:
        with open(t, 'w') as f:
            f.write('in the way')


def execute(h):
    base = tempfile.mkdtemp(prefix='hist')
    r = random.Random('%s-%s' % (h.id, h.seed))
    steps = []
    try:
        work = os.path.join(base, 'w')
        os.makedirs(work)
        for k, docs in enumerate(h.ins):
            os.makedirs(os.path.join(work, 'in%d' % k))
            for i, d in enumerate(docs):
                with open(os.path.join(work, 'in%d' % k, 's%d.xml' % i), 'w') as f:
                    f.write(d)
        os.makedirs(os.path.join(work, 'cwd'))
        made = {}
        for n, s in enumerate(h.plan):
            top = os.path.join(work, DIRS[s['dir']])
            if s['do'] == 'env':
                env(s, top, r)
                steps.append({'do': 'env', 'dir': s['dir'], 'files': listing(top)})
                continue
            if s.get('fresh'):
                shutil.rmtree(top, ignore_errors=True)
                steps.append({'do': 'env', 'dir': s['dir'], 'files': []})
            opt = dict(genrun.OPT, **dict(OPTX, **h.opts[s['opt']]))
            blocked = []
            if s['x'] == 'blocked':
                known = made.get((s['in'], s['opt']), [])
                if known:
                    how = s.get('how') or r.choice(['full', 'dir', 'file'])
                    p = s['path'] if 'path' in s else r.choice([x for x, _ in known])
                    if how == 'file' and 'path' not in s:
                        p = os.path.dirname(p)
                    if p:
                        os.makedirs(top, exist_ok=True)
                        block(top, p, how)
                        blocked = [p]
                steps.append({'do': 'env', 'dir': s['dir'], 'files': listing(top) if os.path.isdir(top) else []})
            docs = h.ins[s['in']]
            names = ['s%d.xml' % i for i in range(len(docs))]
            indir = os.path.join(work, 'in%d' % s['in'])
            a = [drive.app_path(h.app)]
            a += {'quiet': ['-q'], 'debug': ['-d']}.get(s['voice'], [])
            run = genrun.Run(0, [], opt, [], h.app)
            run.docs = docs
            a += genrun.command(run, work) + selection(h.app, opt, work, r) + owncode(opt, os.path.join(work, 'code%d' % s['opt']))
            if s['style'] != 'relative':
                a += ['-o', top + ('/' if s['style'] == 'list' else '')]
            if s['x'] == 'werr':
                a.append('-w')
            if s['x'] in ('help', 'version'):
                a.append('--' + s['x'])
            if s['x'] == 'conflict':
                a += ['-d', '-q']
            if s['x'] != 'noinput':
                if s['style'] in ('list', 'prefix'):
                    l = os.path.join(work, 'list%d.txt' % n)
                    lines = names if s['style'] == 'prefix' else [os.path.join(indir, x) for x in names]
                    k = len(lines) - (len(lines) > 1 and r.random() < .3)      # the last ones may be arguments
                    with open(l, 'w', newline='') as f:
                        f.write(listed(lines[:k], r))
                    rest = [os.path.join(indir, x) for x in names[k:]]
                    a += ['-i', l] + (['-p', indir] if s['style'] == 'prefix' else []) + rest
                else:
                    a += [os.path.join('..', 'in%d' % s['in'] if s['style'] == 'relative' else indir, x) for x in names]
            p = subprocess.run(a, cwd=os.path.join(work, 'cwd'), capture_output=True, text=True, timeout=120, errors='replace')
            text = p.stderr + p.stdout
            after = listing(top) if os.path.isdir(top) else []
            if s['x'] == '' and p.returncode == 0:
                made.setdefault((s['in'], s['opt']), after)
            mode = s['x'] if s['x'] in ('help', 'version', 'noinput', 'conflict') else ''
            steps.append({'do': 'run', 'in': s['in'] + 1, 'app': h.app, 'opt': opt, 'dir': s['dir'], 'werr': s['x'] == 'werr', 'mode': mode,
                          'blocked': blocked, 'after': after, 'status': p.returncode,
                          'errors': len(re.findall(r'^\[ERROR\]', text, re.M)), 'warns': len(re.findall(r'^\[WARNING\]', text, re.M)),
                          'text': text[-300:] if p.returncode else ''})
            if blocked:
                t = os.path.join(top, blocked[0])
                if os.path.islink(t) or os.path.isfile(t):
                    os.unlink(t)
                elif os.path.isdir(t):
                    shutil.rmtree(t)
                steps.append({'do': 'env', 'dir': s['dir'], 'files': listing(top) if os.path.isdir(top) else []})
                if 'path' in s:
                    steps[-2]['after'] = []
                    steps[-1]['files'] = []
        return steps
    finally:
        shutil.rmtree(base, ignore_errors=True)


def validate(hists, batch=400):
    """mismatches as (history, what, detail)"""
    out = genrun.Out()
    for b in range(0, len(hists), batch):
        part = hists[b:b + batch]
        with ProcessPoolExecutor(drive.NCPU) as ex:
            for h, s in zip(part, ex.map(execute, part, chunksize=2)):
                h.steps = s
        recs = []
        for i, h in enumerate(part):
            recs.append({'id': i, 'want': h.want, 'ins': [{'docs': [drive.lex.document(d) for d in x], 'multi': len(x) > 1} for x in h.ins],
                         'steps': [{k: v for k, v in s.items() if k != 'text'} for s in h.steps]})
        work = tempfile.mkdtemp(prefix='genh')
        try:
            path = os.path.join(work, 'jobs.ndjson')
            with open(path, 'w') as f:
                for x in recs:
                    f.write(json.dumps(x) + '\n')
            rc, text = drive.tlc('Runs', {'JOBS': path}, timeout=800)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if rc != 0:
            open('/tmp/tlc.err', 'w').write(text)
            raise drive.ToolError('TLC failed (%d):\n%s' % (rc, text[:300] + '\n...\n' + text[-2500:]))
        g, d = drive.tlc_stats(text)
        out.states += g
        out.distinct += d
        out.runs += len(part)
        for h in part:
            rs = [s for s in h.steps if s['do'] == 'run']
            out.files += len(rs)
            out.ok += sum(s['status'] == 0 for s in rs)
        for l in text.splitlines():
            if l.startswith('"MISMATCH ') or l.startswith('MISMATCH '):
                s = json.loads(l) if l[0] == '"' else l
                m = json.loads(s[len('MISMATCH '):])
                out.bad.append((part[m['id']], m['what'], m['x']))
    return out


# ---------------------------------------------------------------- which histories

def plans(length):
    rc, text = drive.tlc('RunPlan', {'PLAN_LENGTH': str(length)}, timeout=300)
    if rc != 0:
        raise drive.ToolError('RunPlan failed (%d):\n%s' % (rc, text[-1500:]))
    res = []
    for l in text.splitlines():
        if l.startswith('"PLAN ') or l.startswith('PLAN '):
            s = json.loads(l) if l[0] == '"' else l
            res.append(json.loads(s[len('PLAN '):]))
    return sorted(res, key=json.dumps), drive.tlc_stats(text)


def corrupt(r, docs):
    """documents which are refused"""
    d = list(docs)
    i = len(d) - 1
    k = r.randrange(5)
    if k == 0:
        d[i] = d[i][:-9]
    elif k == 1:
        d[i] = d[i].replace('</schema>', '<message name="1x" id="77"/></schema>')
    elif k == 2:
        d[i] = d[i].replace('</schema>', '<fields><int name="Bad" type="uint3"/></fields></schema>')
    elif k == 3:
        d[i] = d[i].replace('</schema>', '<fields><ref name="Bad" field="no.such.field"/></fields></schema>')
    else:
        d[i] = d[i].replace('</schema>', '<frames><frame name="Bad"><id name="I"><int name="f" type="uint8"/></id></frame></frames></schema>')
    return d


def warned(r, docs):
    d = list(docs)
    k = r.randrange(2)
    if k == 0:
        d[-1] = d[-1].replace('<schema ', '<schema strange="1" ', 1)
    else:
        d[-1] = d[-1].replace('</schema>', '<strange/></schema>')
    return d


def setting(r, app, k=None):
    """documents and options of a history"""
    k = k or (1 if r.random() < .6 else 2)
    docs = [drive.full(x.xml()) for x in protogen.protocol(r, k, msgs=3, fields=3, pplat=.6, ifaces=2)]
    kinds = {'comms': ['ns', 'force', 'minrem', 'vindep', 'bundles', 'maininopts']}.get(app, ['ns', 'force', 'minrem'])
    base = genrun.options(r, docs, kinds) if r.random() < .5 else {}
    other = genrun.options(r, docs, kinds)
    if r.random() < .5:
        own = [['include/own.h', '// first\n'], ['doc/own.txt', 'first\n'], ['CMakeLists.txt.append', '# first\n']]
        base['code'] = r.sample(own, r.randint(1, 3))
        if r.random() < .7:
            other['code'] = [[p, t.replace('first', 'the other')] for p, t in base['code']]
    nm = genrun.names(docs)
    tree = drive.lex.document(docs[-1])
    bad = [{'force': 77}]
    some = r.choice(NAMES)
    if app == 'comms':
        bad.append({'bundles': [['b', [[some]]]]})
        if nm[-1][1]:
            bad.append({'bundles': [['b', [nm[-1][1][0], nm[-1][1][0] + ['x']]]]})
    if app in ('c', 'swig', 'emscripten'):
        bad += [{'msgs': [[some]]}, {'plat': some}, {'iface': [some]}]
        if nm[-1][1]:
            bad.append({'msgs': [nm[-1][1][0], ['no', some]]})
            if r.random() < .5:
                other['msgs'] = r.sample(nm[-1][1], r.randint(1, len(nm[-1][1])))
            bad.append({'msgs': [nm[-1][1][0]], 'plat': some})
    return docs, [base, other, r.choice(bad)]


INS = {'good': (0, 0), 'other': (0, 1), 'warned': (1, 0), 'bad': (2, 0), 'missing': (0, 2)}


def history(hid, app, plan, seed, want):
    r = random.Random('%s-%d' % (hid, seed))
    docs, opts = setting(r, app)
    used = {s['in'] for s in plan if s['do'] == 'run'}
    steps = []
    for n, i in zip('FGH', [x for x in ('good', 'other', 'warned') if x in used]):
        steps.append({'do': 'run', 'in': INS[i][0], 'opt': INS[i][1], 'dir': n, 'style': 'args', 'voice': 'quiet', 'x': ''})
    for s in plan:
        s = dict(s)
        if s['do'] == 'run':
            s['in'], s['opt'] = INS[s['in']]
        steps.append(s)
    ins = [docs, warned(r, docs), corrupt(r, docs)]
    need = sorted({s['in'] for s in steps if s['do'] == 'run'})
    for s in steps:
        if s['do'] == 'run':
            s['in'] = need.index(s['in'])
    return Hist(hid, app, [ins[k] for k in need], opts, steps, want, seed)


def sweep(hid, app, seed, want, part):
    """every file and directory of the output made impossible to write, one at a time"""
    r = random.Random('%s-%d' % (hid, seed))
    docs, opts = setting(r, app)
    first = {'do': 'run', 'in': 0, 'opt': 0, 'dir': 'F', 'style': 'args', 'voice': 'quiet', 'x': ''}
    h = Hist(hid, app, [docs], opts, [first], want, seed)
    work = tempfile.mkdtemp(prefix='sweep')
    try:
        run = genrun.Run(0, docs, opts[0], [], app)
        for i, d in enumerate(docs):
            with open(os.path.join(work, 's%d.xml' % i), 'w') as f:
                f.write(drive.full(d))
        out = os.path.join(work, 'out')
        subprocess.run([drive.app_path(app), '-q', '-o', out] + genrun.command(run, work) + selection(app, dict(OPTX, **opts[0]), work) + owncode(opts[0], os.path.join(work, 'code'))
                       + [os.path.join(work, 's%d.xml' % i) for i in range(len(docs))], capture_output=True, timeout=120)
        cases = []
        for d, ds, fs in os.walk(out):
            cases += [(os.path.relpath(os.path.join(d, f), out), k) for f in fs for k in ('full', 'dir') if k == 'dir' or os.path.getsize(os.path.join(d, f))]
            cases += [(os.path.relpath(os.path.join(d, x), out), 'file') for x in ds]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cases.sort()
    res = []
    for b in range(0, len(cases), part):
        plan = [first] + [dict(first, dir='A', x='blocked', how=k, path=p, fresh=True) for p, k in cases[b:b + part]]
        res.append(Hist('%s.%d' % (hid, b), app, [docs], opts, plan, want, seed))
    return res


def runs_for(pid, tier, seed):
    deep = tier != 'quick'
    apps = list(drive.APPS)
    ps, stats = plans(3 if deep else 2)
    ps = [p for p in ps if p[-1]['do'] == 'run']
    res = []
    for i, p in enumerate(ps):
        for k in range(1 if deep or pid == 'P16' else 2):
            app = apps[(i + k * 3 + i // 7) % len(apps)]
            res.append(history('%s-h%d.%d' % (pid, i, k), app, p, seed, [pid]))
    if pid == 'P22':
        for n in range(8 if deep else 2):
            for app in apps:
                res += sweep('%s-w%d%s' % (pid, n, app), app, seed, [pid], 12)
    return res, stats


def check(pid, tier, seed):
    import run as runmod
    drive.build(['commsdsl2' + a for a in drive.APPS])
    r = runmod.Result()
    hs, (g, d) = runs_for(pid, tier, seed)
    o = validate(hs)
    seen = set()
    for h, what, x in o.bad:
        if (h.id, what) in seen or len(seen) > 10:
            continue
        seen.add((h.id, what))
        r.bad.append((what.split(' of ')[0], '%s: %s' % (what, x[:800]), h.case()))
    r.coverage = {'states': o.distinct + d, 'transitions': o.states + g, 'traces_validated_against_impl': o.runs, 'generator_runs': o.files,
                  'successful_generator_runs': o.ok, 'histories_enumerated_by_TLC': len([h for h in hs if '-h' in h.id]),
                  'samples': [{'app': h.app, 'plan': h.plan[:6], 'statuses': [s['status'] for s in h.steps if s['do'] == 'run']} for h in hs[len(hs) // 2:][:3]]}
    return r


def replay(d):
    c = d['case']
    drive.build(['commsdsl2' + c['app']])
    o = validate([Hist(c['id'], c['app'], c['ins'], c['opts'], c['plan'], c['want'], c['seed'])])
    for _, what, x in o.bad:
        print('%s: %s' % (what, x))
    return 1 if o.bad else 0
